"""P19: rewrite rules on aligned strings, lists of FSTs, characters, phonemes."""

import itertools
import re

import aligned as A
import fstio

NT = '//nisaba/scripts/natural_translit/'
LABELS = [NT + 'utils:' + x for x in (
    'alignment', 'concat', 'fst_list', 'rewrite_functions', 'type_op',
    'inventory')] + [NT + 'script:char', NT + 'latin:ltn_inventory'] + [
        NT + 'phonology:' + x for x in (
            'phon', 'modify_phon', 'phoneme_inventory', 'feature',
            'transcriptor', 'romanizer', 'phonological_symbol')] + [
                NT + 'phonology/operations:voicing',
                NT + 'phonology/operations:syllable',
                NT + 'phonology/inventories:x_uni']
RULE = ('random rewrite rules of every kind, with random contexts, applied to '
        'random aligned strings made of the symbols of the rule; random lists '
        'of FSTs and their unions, concatenations and compositions; random '
        'characters and phonemes; and all phonemes that ship; a case is one '
        'rule, list, character or phoneme with one string, non-trivial when '
        'the rule fires')
ASSUMPTIONS = ['what a rule does to a position where it may both insert and '
               'replace has no documented meaning and is left out',
               'a repetition of a union has none either']
SCALE = 2  # Of the quick tier.
REQUIRED = {'rules': 400, 'outputs': 20000, 'fired': 4000, 'missed': 900,
            'both sides': 60, 'edges': 60, 'ambiguous': 20, 'cascades': 60,
            'lists': 300, 'members': 8000, 'adjacent': 3000, 'adjacent met': 500,
            'extractions': 2000, 'syllables': 2000, 'syllables met': 300,
            'chars': 1500, 'glyphs': 2000, 'phons': 1500, 'derived': 700,
            'composed': 700, 'transliterations': 1500,
            'shipped phonemes': 300, 'named': 90, 'transcriptions': 900,
            'romanizations': 900}
GR = ['<a>', '<ka>', '<ii>', '<.>', '<s_a>', '<>']
PH = ['{a}', '{k}', '{+}', '{:h}', '{g}', '{aa}']
TR = ['`a`', '`k`', '`DEL`', '`s_sh`']
LAX = ['=', 'a', ' ', '<', '}', '``', '\n', '[', '\\']


def shards(tier):
  return ['shipped'] + ['random%d' % i for i in range(7)]


class World:

  def __init__(self, ctx):
    import pynini as pyn
    from nisaba.scripts.natural_translit.utils import alignment as al
    from nisaba.scripts.natural_translit.utils import concat as cc
    from nisaba.scripts.natural_translit.utils import fst_list as fl
    from nisaba.scripts.natural_translit.utils import rewrite_functions as rw
    from nisaba.scripts.natural_translit.utils import type_op as ty
    self.ctx, self.rng = ctx, ctx.rng
    self.pyn, self.al, self.cc, self.fl, self.rw, self.ty = (
        pyn, al, cc, fl, rw, ty)

  def like(self, s):
    """A string or its acceptor."""
    return s if self.rng.random() < .5 else self.pyn.accep(self.pyn.escape(s))

  def acc(self, s):
    return self.pyn.accep(self.pyn.escape(s))

  def outs(self, f, text, n=400):
    return {o for o, _ in fstio.outputs(f, text, n=n)}

  def strings(self, f, n=400):
    """All strings of a finite acceptor."""
    pyn = self.pyn
    f = pyn.project(pyn.Fst(f) if isinstance(f, str) else f.copy(), 'output')
    l = pyn.shortestpath(f.rmepsilon(), nshortest=n, unique=True)
    return set(l.paths().ostrings()) if l.start() != -1 else set()

  def same(self, f, texts, model, mech, what, **detail):
    """An acceptor or a relation against a regular expression."""
    for t in texts:
      got = fstio.accepts(f, t)
      want = bool(model(t))
      self.ctx.saw('members')
      self.ctx.expect(got == want, mech, what, text=t, got=got, want=want,
                      **detail)


# Rules.


def text_of(rng, pool, all_of):
  """A random aligned string, mostly made of what the rule is about."""
  r = []
  def one(kinds):
    p = [x for x in pool if x and x[0] in kinds]
    if p and rng.random() < .75:
      return rng.choice(p)
    return rng.choice([x for x in all_of if x[0] in kinds])
  for _ in range(rng.choice((1, 2, 3, 4, 4, 5, 6, 7))):
    k = rng.random()
    if k < .35:
      r += [one('<') for _ in range(rng.choice((1, 1, 1, 2)))] + ['=']
      r += [one('{`') for _ in range(rng.choice((0, 1, 1, 1, 2)))]
    elif k < .5:
      r.append(one('<'))
    elif k < .78:
      r += [one('{`') for _ in range(rng.choice((1, 1, 2, 3)))]
    elif k < .93 and pool:
      r.append(rng.choice(pool))
    else:
      r.append(rng.choice(LAX))
    if rng.random() < .2:
      r.append(r[-1])
  return ''.join(r)


def context(w, pool, edge, syms):
  """A random context: what the rule is given, and its regular expression."""
  rng, al = w.rng, w.al
  k = rng.random()
  if k < .3:
    return None, None
  if k < .42:
    if edge == 'left':
      return al.BOW, A.BOW
    return al.EOW, A.EOW
  some = [rng.choice(syms) for _ in range(rng.choice((1, 1, 2, 3)))]
  pool += some
  if k < .65:
    return w.like(some[0]), A.lit(some[0])
  if k < .8:
    return w.fl.FstList(*map(w.acc, some)).union_opt(), A.lit(*some)
  if k < .87:
    b = rng.choice(syms)
    pool.append(some[0] + b)
    return (w.cc.concat_r(w.acc(some[0]), w.acc(b)),
            A.lit(some[0]) + A.SKIP_LEFT + A.lit(b))
  if k < .92:
    kind, f = rng.choice([(A.G, al.GRAPHEME), (A.P, al.PHONEME),
                          (A.T, al.TRANSLIT)])
    return f, kind
  if k < .96:
    return '', ''
  b = rng.choice(syms)
  return (w.acc(some[0]) + w.acc(b).star, A.lit(some[0]) + A.lit(b) + '*')


def make_rule(w):
  """A random rule: the FST, the model, the symbols and what was asked."""
  rng, al, rw, pyn = w.rng, w.al, w.rw, w.pyn
  syms = GR + PH + TR
  syms = rng.sample(syms, 6) + [rng.choice(GR), rng.choice(PH)]
  right_syms = [s for s in syms if s[0] != '<'] + ['{a}']
  pool = []
  kind = rng.choice('rewrite rewrite rewrite_ls rewrite_ls rewrite_op '
                    'word_initial word_final repeated repeated_ls reassign '
                    'reassign_ls reassign_initial reassign_final adjacent '
                    'merge merge_repeated insert delete'.split())
  some = lambda k=2: ''.join(rng.choice(syms)
                             for _ in range(rng.choice((1,) * 3 + (2,) * k)))
  right = lambda: ''.join(rng.choice(right_syms)
                          for _ in range(rng.choice((1, 1, 1, 2))))
  left = lambda: ''.join(rng.choice(GR) for _ in range(rng.choice((1, 1, 2))))
  lc = lf = rc = rf = None
  if kind not in ('word_initial', 'reassign_initial', 'adjacent',
                  'merge_repeated'):
    lf, lc = context(w, pool, 'left', syms)
  if kind not in ('word_final', 'reassign_final', 'adjacent',
                  'merge_repeated'):
    rf, rc = context(w, pool, 'right', syms)
  kw = {}
  if lf is not None:
    kw['preceding'] = lf
  if rf is not None:
    kw['following'] = rf
  if lc is not None and rc is not None:
    w.ctx.saw('both sides')
  asked = dict(kind=kind, left=lc, right=rc)
  if kind in ('rewrite', 'word_initial', 'word_final', 'delete'):
    olds = [some() for _ in range(rng.choice((1, 1, 2, 3)))]
    news = [''] if kind == 'delete' else [
        rng.choice([some(), some(), some(), ''])
        for _ in range(rng.choice((1, 1, 1, 2)))]
    if kind == 'rewrite' and rng.random() < .1:
      olds = ['']
    o = w.like(olds[0]) if len(olds) == 1 else w.fl.FstList(
        *map(w.acc, olds)).union_opt()
    n = w.like(news[0]) if len(news) == 1 else w.fl.FstList(
        *map(w.acc, news)).union_opt()
    pairs = list(itertools.product(olds, news))
    if kind == 'rewrite':
      f = rw.rewrite(o, n, **kw)
    elif kind == 'delete':
      f = rw.delete(o, **kw)
    elif kind == 'word_initial':
      f, lc = rw.rewrite_word_initial(o, n, **kw), A.BOW
    else:
      f, rc = rw.rewrite_word_final(o, n, **kw), A.EOW
  elif kind == 'insert':
    new = some()
    pairs = [('', new)]
    f = rw.insert(w.like(new), **kw)
  elif kind in ('rewrite_ls', 'rewrite_op'):
    pairs = [(some(), rng.choice([some(), some(), '']))
             for _ in range(rng.choice((1, 2, 3, 4)))]
    if kind == 'rewrite_ls':
      f = rw.rewrite_ls([(w.like(o), w.like(n)) for o, n in pairs], **kw)
    else:
      f = rw.rewrite_op(w.fl.FstList.cross(
          *[(w.acc(o), w.acc(n)) for o, n in pairs]).union_opt(), **kw)
  elif kind == 'repeated':
    o = some()
    n = rng.choice(['', some()])
    pairs = [(o + o, n or o)]
    f = (rw.rewrite_repeated(w.like(o), w.like(n), **kw) if n else
         rw.rewrite_repeated(w.like(o), **kw))
  elif kind == 'repeated_ls':
    items = [(some(), *rng.choice([(), (), (some(),)]))
             for _ in range(rng.choice((1, 2, 3)))]
    pairs = [(i[0] * 2, i[-1]) for i in items]
    f = rw.rewrite_repeated_ls([tuple(map(w.like, i)) for i in items], **kw)
  elif kind in ('reassign', 'reassign_initial', 'reassign_final'):
    l, o, n = left(), right(), right()
    pairs = [(l + '=' + o, l + '=' + n)]
    pool.append(pairs[0][0])
    args = [w.acc(x) for x in (l, o, n)]
    if kind == 'reassign':
      f = rw.reassign(*args, **kw)
    elif kind == 'reassign_initial':
      f, lc = rw.reassign_word_initial(*args, **kw), A.BOW
    else:
      f, rc = rw.reassign_word_final(*args, **kw), A.EOW
  elif kind == 'reassign_ls':
    items = [(left(), right(), right()) for _ in range(rng.choice((1, 2, 3)))]
    pairs = [(l + '=' + o, l + '=' + n) for l, o, n in items]
    f = rw.reassign_ls([tuple(map(w.acc, i)) for i in items], **kw)
  elif kind == 'adjacent':
    x = [left(), right(), right(), left(), right(), right()]
    pairs = [(x[0] + '=' + x[1] + x[3] + '=' + x[4],
              x[0] + '=' + x[2] + x[3] + '=' + x[5])]
    f = rw.reassign_adjacent_alignments(*map(w.acc, x))
  elif kind == 'merge':
    l1, r1, l2, r2 = left(), right(), left(), right()
    n = rng.choice([None, right()])
    pairs = [(l1 + '=' + r1 + l2 + '=' + r2,
              l1 + l2 + '=' + (n or r1 + r2))]
    if n:
      kw['new_right'] = w.acc(n)
    f = rw.merge(*map(w.acc, (l1, r1, l2, r2)), **kw)
  else:
    l, r = left(), right()
    n = rng.choice([None, right()])
    pairs = [((l + '=' + r) * 2, l + l + '=' + (n or r))]
    f = rw.merge_repeated_alignment(
        w.acc(l), w.acc(r), **({'new_right': w.acc(n)} if n else {}))
  for o, n in pairs:
    pool += [o, o, n]
  if A.BOW in (lc or '') or A.EOW in (rc or ''):
    w.ctx.saw('edges')
  asked['pairs'] = pairs
  return f, A.rule(pairs, lc, rc), [p for p in pool if p], syms, asked


def all_kinds(syms):
  return syms + ['<a>', '{a}', '`a`']


def rules(w):
  ctx, rng = w.ctx, w.rng
  f, model, pool, syms, asked = make_rule(w)
  ctx.saw('rules')
  seen = set()
  for _ in range(50):
    t = text_of(rng, pool, all_kinds(syms))
    if t in seen:
      continue
    seen.add(t)
    model.fired = model.missed = 0
    want = model(t)
    if want is None:
      continue
    ctx.saw('outputs')
    ctx.saw('fired', bool(model.fired))
    ctx.saw('missed', bool(model.missed))
    ctx.saw('ambiguous', len(want) > 1)
    ctx.case((repr(asked), t), bool(model.fired))
    got = w.outs(f, t)
    ctx.expect(got == want, 'rewrite: ' + asked['kind'], 'a rule does not rewrite as it says',
               rule=asked, text=t, got=sorted(got)[:4], want=sorted(want)[:4])


def cascades(w):
  ctx, rng, pyn = w.ctx, w.rng, w.pyn
  made = [make_rule(w) for _ in range(rng.choice((1, 2, 3)))]
  fst = w.fl.FstList(*[m[0] for m in made]).compose()
  pool = [p for m in made for p in m[2]]
  syms = [s for m in made for s in m[3]]
  ctx.saw('cascades')
  for _ in range(15):
    t = text_of(rng, pool, all_kinds(syms))
    want = {t}
    for _, model, _, _, _ in made:
      new = [model(x) for x in want]
      want = None if None in new else set().union(*new)
      if not want or len(want) > 300:
        break
    if want is None or len(want) > 300:
      continue
    got = w.outs(fst, t)
    ctx.saw('outputs')
    ctx.case((repr([m[4] for m in made]), t), want != {t})
    ctx.expect(got == want, 'cascade',
               'a composition is not one rule after another',
               rules=[m[4] for m in made], text=t, got=sorted(got)[:4],
               want=sorted(want)[:4])


# Alignments, adjacency, lists.


def alignments(w):
  ctx, rng, al, cc = w.ctx, w.rng, w.al, w.cc
  l, r, o, n = (rng.choice(GR) + rng.choice(['', '<a>']), rng.choice(PH + TR),
                rng.choice(PH), rng.choice(PH + TR))
  base = rng.choice(['a', 's_a', ':h', '', 'Ab', '+', '.-'])
  mech = 'align'
  for name, f, want in (
      ('align', al.align(w.acc(l), w.acc(r)), {l + '=' + r}),
      ('enclose_grapheme', al.enclose_grapheme(w.like(base)),
       {'<%s>' % base}),
      ('enclose_phoneme', al.enclose_phoneme(w.like(base)),
       {'{%s}' % base}),
      ('enclose_translit', al.enclose_translit(w.like(base)),
       {'`%s`' % base}),
      ('repeat', cc.repeat(w.acc(l)), {l + l})):
    got = w.strings(f)
    ctx.saw('members')
    ctx.expect(got == want, mech, name + ' does not give what it says',
               args=(l, r, base), got=sorted(got), want=sorted(want))
  for name, f, src, want in (
      ('assign', al.assign(w.acc(l), w.acc(r)), l, l + '=' + r),
      ('realign', al.realign(w.acc(l), w.acc(o), w.acc(n)), l + '=' + o,
       l + '=' + n)):
    ctx.saw('members')
    got = w.outs(f, src)
    ctx.expect(got == {want}, mech, name + ' does not give what it says',
               args=(l, r, o, n), got=sorted(got), want=want)
    bad = rng.choice(GR + PH) + src
    ctx.expect(not w.outs(f, bad), mech, name + ' takes what it should not',
               args=(l, r, o, n), text=bad)
  # Adjacent symbols.
  a, b = rng.choice(PH + TR), rng.choice(PH + TR)
  x, y = rng.choice(GR), rng.choice(GR)
  fr, fl_ = cc.concat_r(w.acc(a), w.acc(b)), cc.concat_l(w.acc(x), w.acc(y))
  mr = re.compile('(?:%s)\\Z' % (A.lit(a) + A.SKIP_LEFT + A.lit(b)))
  ml = re.compile('(?:%s)\\Z' % (A.lit(x) + A.SKIP_RIGHT + A.lit(y)))
  for _ in range(25):
    mid = ''.join(rng.choice(GR + ['=', '=']) for _ in range(rng.randrange(4)))
    if rng.random() < .6:
      mid += '='
    t = a + rng.choice([mid, mid, '', text_of(rng, [a, b], GR + PH + TR)]) + b
    want, got = bool(mr.match(t)), fstio.accepts(fr, t)
    ctx.saw('adjacent')
    ctx.saw('adjacent met', want)
    ctx.expect(want == got, 'adjacent', 'concat_r', left=a, right=b, text=t,
               got=got, want=want)
    mid = rng.choice(['=', '=', '=', '']) + ''.join(
        rng.choice(PH + TR + ['=']) for _ in range(rng.randrange(3)))
    t = x + rng.choice([mid, mid, '', text_of(rng, [x, y], GR + PH + TR)]) + y
    want, got = bool(ml.match(t)), fstio.accepts(fl_, t)
    ctx.saw('adjacent')
    ctx.saw('adjacent met', want)
    ctx.expect(want == got, 'adjacent', 'concat_l', left=x, right=y, text=t,
               got=got, want=want)


KINDS = {}


def kinds(w):
  """The constants that stand for kinds of symbols."""
  ctx, rng, al = w.ctx, w.rng, w.al
  if not KINDS:
    rs = '(?:%s|%s)*' % (A.P, A.T)
    KINDS.update({
        'GRAPHEME': A.G, 'GRAPHEMES': A.G + '*', 'PHONEME': A.P,
        'PHONEMES': A.P + '*', 'TRANSLIT': A.T, 'TRANSLITS': A.T + '*',
        'R_SYMS': rs, 'SYMS': '(?:%s|%s|%s)*' % (A.G, A.P, A.T),
        'SKIP_LEFT_SIDE': A.SKIP_LEFT, 'SKIP_RIGHT_SIDE': A.SKIP_RIGHT,
        'SKIP': A.SKIP, 'SYM': A.SYM})
  for name, r in KINDS.items():
    f = getattr(al, name)
    m = re.compile('(?:%s)\\Z' % r)
    texts = [text_of(rng, [], GR + PH + TR), rng.choice(GR + PH + TR),
             ''.join(rng.choice(GR) for _ in range(3)) + rng.choice(['', '=']),
             rng.choice(['', '=']) + ''.join(
                 rng.choice(PH + TR) for _ in range(3)),
             ''.join(rng.choice('aZ_+.*-&!:,1 <') for _ in range(2)),
             '<' + ''.join(rng.choice('aZ_+.*-&!:,1') for _ in range(2)) + '>']
    w.same(f, texts, m.match, 'kinds', name + ' does not stand for its kind')


def extractions(w):
  ctx, rng = w.ctx, w.rng
  for _ in range(12):
    t = text_of(rng, [], GR + PH + TR)
    want = re.sub(A.G + '|=', '', t)
    got = w.outs(w.rw.EXTRACT_RIGHT_SIDE, t)
    ctx.saw('extractions')
    ctx.expect(got == {want}, 'extract', 'EXTRACT_RIGHT_SIDE keeps something '
               'of the left sides or drops something of the right ones',
               text=t, got=sorted(got), want=want)


def lists(w):
  ctx, rng, pyn, fl = w.ctx, w.rng, w.pyn, w.fl
  alpha = 'abc'
  word = lambda: ''.join(rng.choice(alpha) for _ in range(rng.randrange(3)))
  model = []
  def item():
    """Something to add, the languages of which go to the model."""
    k = rng.random()
    if k < .3:
      s = word()
      model.append({s})
      return s
    if k < .6:
      ss = {word() for _ in range(rng.choice((1, 1, 2, 3)))}
      model.append(ss)
      f = pyn.accep(min(ss))
      return pyn.union(*map(pyn.accep, ss)) if len(ss) > 1 else f
    if k < .7:
      return rng.choice([w.ty.UNSPECIFIED, 5, None])
    parts = [item() for _ in range(rng.randrange(4))]
    k = rng.random()
    return (fl.FstList(*parts) if k < .4 else parts if k < .7 else
            tuple(parts))
  args = [item() for _ in range(rng.randrange(5))]
  if rng.random() < .5:
    l = fl.FstList(*args)
  else:
    l = fl.FstList()
    for a in args:
      r = l.add(a)
      ctx.expect(r is l, 'list', 'add does not return the list')
  if rng.random() < .3:
    ss = [word() for _ in range(rng.randrange(3))]
    l.add(fl.FstList.accep(*ss))
    model += [{s} for s in ss]
  ctx.saw('lists')
  d = dict(items=model)
  def unchanged(after):
    got = [w.strings(f) for f in l]
    ctx.expect(len(l) == len(model) and got == model, 'list',
               'a list does not hold what was added to it, in order',
               after=after, got=got, **d)
  unchanged('add')
  union = set().union(*model) if model else set()
  cat = {''}
  for m in model:
    cat = {x + y for x in cat for y in m}
  for name, want in (('union', union), ('union_opt', union), ('concat', cat)):
    if len(want) > 60:
      continue
    got = w.strings(getattr(l, name)())
    ctx.expect(got == want, 'list', name, got=sorted(got), want=sorted(want),
               **d)
    unchanged(name)
  if model:
    star = re.compile('(?:%s)*\\Z' % A.lit(*sorted(union)))
    texts = [''.join(rng.choice(sorted(union) + ['a']) for _ in range(k))
             for k in (0, 1, 2, 3, 4)]
    w.same(l.union_star(), texts, star.match, 'list', 'union_star', **d)
    unchanged('union_star')
  # Relations.
  pairs = [[(rng.choice(alpha), rng.choice(alpha))
            for _ in range(rng.choice((1, 2, 3, 4)))]
           for _ in range(rng.choice((1, 2, 3)))]
  rel = [fl.FstList.cross(*p) if rng.random() < .5 else
         fl.FstList.make(pyn.cross, *p) for p in pairs]
  for f, p in zip(rel, pairs):
    ctx.expect(len(f) == len(p) and
               all(w.outs(x, a) == {b} for x, (a, b) in zip(f, p)),
               'list', 'cross or make', pairs=p)
  comp = fl.FstList([f.union() for f in rel])
  for t in alpha:
    want = {t}
    for p in pairs:
      want = {b for a, b in p if a in want}
    for k in range(2):
      ctx.saw('members')
      got = w.outs(comp.compose(), t)
      ctx.expect(got == want, 'list', 'compose', pairs=pairs, text=t,
                 got=sorted(got), want=sorted(want))


def syllables(w):
  from nisaba.scripts.natural_translit.phonology.operations import syllable
  ctx, rng = w.ctx, w.rng
  v = rng.sample(PH, 2)
  c = rng.sample([p for p in PH + TR if p not in v], 3)
  cl = [rng.choice(c) + rng.choice(c) for _ in range(2)]
  u = lambda *xs: w.fl.FstList(*map(w.acc, xs)).union_opt()
  onset = syllable.legal_onset(u(*v), u(*c[:2]), u(*cl))
  coda = syllable.legal_coda(u(*v), u(*c[:2]), u(*cl))
  mo = re.compile('%s%s%s\\Z' % (A.lit(*c[:2], *cl), A.SKIP_LEFT, A.lit(*v)))
  mc = re.compile('%s%s%s?\\Z' % (A.lit(*v), A.SKIP_LEFT,
                                  A.lit(*c[:2], *cl)))
  for _ in range(20):
    parts = [rng.choice(c + cl + v), rng.choice(['', '', '<a>=', '=', '<a>']),
             rng.choice(c + cl + v + ['']), rng.choice(['', '', '', '{x}'])]
    t = ''.join(parts)
    for name, f, m in (('onset', onset, mo), ('coda', coda, mc)):
      want, got = bool(m.match(t)), fstio.accepts(f, t)
      ctx.saw('syllables')
      ctx.saw('syllables met', want)
      ctx.expect(got == want, 'syllable', 'legal_' + name, vowels=v,
                 consonants=c[:2], clusters=cl, text=t, got=got, want=want)


# Characters.


GLYPHS = list('aābçṁ') + ['kh', 'm̐', 'अ', 'ക', '𑄇', '[', 'l̥', '\\', 'ß']


def chars(w):
  from nisaba.scripts.natural_translit.script import char as ch
  ctx, rng, pyn = w.ctx, w.rng, w.pyn
  mech = 'char'
  typs = rng.sample(['a', 'aa', 'b', 'kh', 'vcl', 'lv', '.', 's_x', 'au', 'z',
                     'long_', 'n'], 6)
  glyphs = rng.sample(GLYPHS, 6)
  made = []
  def check(c, typ, glyph, ph, alias, cmp):
    got = (c.alias, c.text, c.typ, w.strings(c.gr), w.strings(c.tr), c.glyph,
           w.strings(c.ph), w.strings(c.cmp) if isinstance(c.cmp, pyn.Fst)
           else None, c.value is c)
    want = (alias, glyph, typ, {'<%s>' % typ}, {'`%s`' % typ}, glyph, {ph},
            {cmp} if cmp is not None else None, True)
    ctx.saw('chars')
    ctx.case((typ, glyph, ph, alias, cmp), cmp is not None)
    ctx.expect(got == want, mech, 'a character does not have the fields it '
               'was made with', got=got, want=want)
  for t, g in zip(typs, glyphs):
    ph = rng.choice(['', '{a}', '{k}{a}'])
    alias = rng.choice(['', 'X_' + t])
    args = [t, pyn.escape(g) if rng.random() < 0 else g]
    kw = {}
    if ph:
      kw['ph'] = w.acc(ph)
    if alias:
      kw['alias'] = alias
    c = ch.Char(*args, **kw)
    check(c, t, g, ph, alias or t.upper(), None)
    made.append((c, t, g, ph))
  cs = [m[0] for m in made]
  for u, (c, t, g, ph) in zip(ch.uppercase_list(cs), made):
    check(u, t.upper() + '_uc', g.upper(), ph, (t.upper() + '_uc').upper(),
          None)
  for _, t, g, ph in made[:3]:
    check(ch.make_substring(t), 's_' + t, t, '', ('s_' + t).upper(), None)
  doubles, table = ch.ls_double_substring(cs)
  ctx.expect(len(doubles) == len(cs) and list(table) == [
      '`%s`' % t for _, t, _, _ in made] and [
          w.strings(x) for x in table.values()] == [
              {'`s_%s%s`' % (t, t)} for _, t, _, _ in made], mech,
             'doubled substrings are not those of the characters',
             typs=typs, got=list(table))
  for d, (c, t, g, _) in zip(doubles, made):
    for x in (d, ch.double_substring(c)):
      check(x, 's_' + t + t, g + g, '', ('s_' + t + t).upper(), None)
  comps = []
  for k in range(3):
    parts = [rng.choice(made) for _ in range(rng.choice((1, 2, 2, 3)))]
    alias, ph = rng.choice(['', 'C%d' % k]), rng.choice(['', '{x}'])
    kw = {}
    if ph:
      kw['ph'] = w.acc(ph)
    if alias:
      kw['alias'] = alias
    typ = 'comp%s' % 'abc'[k]
    c = ch.make_composite_char([p[0] for p in parts], typ, **kw)
    cmp = ''.join('<%s>' % p[1] for p in parts)
    check(c, typ, ''.join(p[2] for p in parts), ph, alias or typ.upper(), cmp)
    comps.append((c, cmp, typ))
  # Reading, composing, printing.
  plain = [m for m in made if m[2] not in '[\\']
  pc = [m[0] for m in plain]
  read, show = ch.read_glyph(pc), ch.print_glyph(pc)
  only, dedup = ch.print_only_glyph(pc), ch.remove_repeated_glyph(pc)
  comp = ch.compose_from_gr([c for c, _, _ in comps])
  m_comp = A.Rule([(cmp, '<%s>' % t) for _, cmp, t in comps])
  m_dedup = A.Rule([(m[2] * 2, m[2]) for m in plain])
  for _ in range(10):
    seq = [rng.choice(plain) for _ in range(rng.randrange(6))]
    word = ''.join(m[2] for m in seq)
    ctx.saw('glyphs')
    for name, f, src, want in (
        ('print_glyph', show, ''.join('`%s`' % m[1] for m in seq), {word}),
        ('print_only_glyph', only, ''.join(
            rng.choice(['', '<x>=', '<x>', '=']) + '`%s`' % m[1]
            for m in seq), {word})):
      got = w.outs(f, src)
      ctx.expect(got == want, 'glyph', name, text=src, got=sorted(got),
                 want=sorted(want))
    got = w.outs(read, word)
    want = {''.join('<%s>' % m[1] for m in seq)}
    # (Two glyphs may be read as a third.)
    ctx.expect(want <= got and all(
        ''.join({'<%s>' % m[1]: m[2] for m in plain}.get(x, '?')
                for x in re.findall('<[^>]*>', o)) == word for o in got),
               'glyph', 'read_glyph', text=word, got=sorted(got),
               want=sorted(want))
    got = w.outs(read, word + '?')
    ctx.expect(not got, 'glyph', 'read_glyph reads what is not a glyph',
               text=word + '?', got=sorted(got))
    grs = ''.join(rng.choice([c[1] for c in comps] + [
        '<%s>' % t for t in typs]) for _ in range(rng.randrange(5)))
    got, want = w.outs(comp, grs), m_comp(grs)
    ctx.expect(got == want, 'glyph', 'compose_from_gr', text=grs,
               composites=[c[1:] for c in comps], got=sorted(got),
               want=sorted(want))
    twice = ''.join(m[2] * rng.choice((1, 1, 2, 3)) for m in seq)
    got, want = w.outs(dedup, twice), m_dedup(twice)
    ctx.expect(got == want, 'glyph', 'remove_repeated_glyph', text=twice,
               got=sorted(got), want=sorted(want))
  # Lists, unions and inventories of fields.
  ts = {'gr': ['<%s>' % t for t in typs], 'tr': ['`%s`' % t for t in typs]}
  for attr in ('gr', 'tr'):
    got = [w.strings(f) for f in getattr(ch, attr + '_list')(cs)]
    want = [{t} for t in ts[attr]]
    th = getattr(ch, 'thing_%s_list' % attr)('ALIAS', cs)
    ctx.expect(got == want and th.alias == 'ALIAS' and
               [w.strings(f) for f in th.value] == want, 'fields',
               attr + '_list', got=got, want=want)
    th = getattr(ch, 'thing_%s_union' % attr)('ALIAS', cs)
    got = w.strings(th.value)
    ctx.expect(th.alias == 'ALIAS' and got == set(ts[attr]), 'fields',
               'thing_%s_union' % attr, got=sorted(got), want=ts[attr])
    th = getattr(ch, 'thing_%s_star' % attr)('ALIAS', cs)
    m = re.compile(A.lit(*ts[attr]) + '*\\Z')
    w.same(th.value, [''.join(rng.choice(ts[attr] + ['<q>'])
                              for _ in range(k)) for k in range(4)],
           m.match, 'fields', 'thing_%s_star' % attr, typs=typs)
    inv = getattr(ch, attr + '_inventory')(
        cs, [w.ty.Thing('suppl', value_from=[1])])
    got = [w.strings(getattr(inv, c.alias)) for c in cs]
    ctx.expect(got == want and inv.suppl == [1] and
               [w.strings(f) for f in inv] == want, 'fields',
               attr + '_inventory', got=got, want=want)
  inv = ch.char_inventory(cs)
  ctx.expect(list(inv) == cs and all(
      getattr(inv, c.alias) is c for c in cs), 'fields', 'char_inventory',
             typs=typs)


# Phonemes.


class Phons:
  """Random phonemes and what they should be."""

  def __init__(self, w):
    from nisaba.scripts.natural_translit.phonology import modify_phon as mod
    from nisaba.scripts.natural_translit.phonology import phon as p
    self.w, self.mod, self.p = w, mod, p

  def view(self, phon):
    w = self.w
    return dict(alias=phon.alias, txn=phon.txn, ftr=list(phon.ftr),
                ph=w.strings(phon.ph), ipa=phon.ipa, text=phon.text,
                tr={k: w.strings(v) for k, v in phon.tr_dict.items()},
                cmp=[c.alias for c in phon.cmp])

  def check(self, phon, m, how):
    got = self.view(phon)
    self.w.ctx.saw('phons')
    self.w.ctx.case((how, repr(m)), len(m['cmp']) > 1)
    want = dict(m, ph={m['ph']}, tr={k: {v} for k, v in m['tr'].items()})
    # What a thing's text is when there is none is for C13 to say.
    got.pop('text')
    self.w.ctx.expect(got == want, 'phon', how + ' does not give the phoneme '
                      'that it should', got=got, want=want)

  def base(self, txn, ftr, ipa, tr, alias):
    args = [txn, list(ftr), ipa]
    kw = {}
    if tr is not None:
      kw['base_tr'] = self.w.acc(tr)
    if alias:
      kw['alias'] = alias
    phon = self.p.Phon.base(*args, **kw)
    alias = alias or txn.upper()
    m = dict(alias=alias, txn=txn, ftr=list(ftr), ph='{%s}' % txn, ipa=ipa,
             tr={'base': '`DEL`' if tr is None else tr}, cmp=[alias])
    self.check(phon, m, 'base')
    return phon, m


def phons(w):
  ctx, rng, pyn = w.ctx, w.rng, w.pyn
  P = Phons(w)
  mod, p = P.mod, P.p
  ftrs = ['vowel', 'stop', 'voiced', 'voiceless', 'dental', 'front']
  made = []
  for txn, ipa in zip(rng.sample(['a', 'u', 'ii', 't', 'sh', '_', '.', 'ng',
                                  'b', 'z'], 6),
                      rng.sample(list('aušʃzθʈ') + ['n̪', 't͡', ''], 6)):
    made.append(P.base(txn, rng.sample(ftrs, rng.choice((1, 2, 3))), ipa,
                       rng.choice([None, '`a`', '`s_sh`', '`k``y`', '']),
                       rng.choice(['', 'V_' + txn.upper()])))
  def composed(parts, ftr, new=None, alt=None):
    cmps = [c for _, m in parts for c in m.get('cmps', [m])]
    base = ''.join(c['tr']['base'] for c in cmps)
    return dict(alias='_'.join(c['alias'] for c in cmps),
                txn='+'.join(c['txn'] for c in cmps),
                ftr=[ftr] + [f for c in cmps for f in c['ftr']],
                ph='{+}'.join(c['ph'] for c in cmps),
                ipa='\u0361'.join(c['ipa'] for c in cmps),
                tr=dict({'base': base, ftr: base if new is None else new},
                        **(alt or {})),
                cmp=[c['alias'] for c in cmps], cmps=cmps)
  def plain(m):
    return {k: v for k, v in m.items() if k != 'cmps'}
  simple = list(made)
  for _ in range(4):
    ph, m = rng.choice(simple)
    k = rng.random()
    if k < .35 and 'voiced' in m['ftr']:
      x, how = mod.devoiced(ph), 'devoiced'
      f = list(m['ftr'])
      f.remove('voiced')
      mo, new = ('o', 'devoiced', '\u0325'), None
    elif k < .7:
      x, how, f = mod.nonpulmonic(ph), 'nonpulmonic', m['ftr']
      mo, new = ('e', 'nonpulmonic', '`'), None
    else:
      # (Any phoneme can be a suffix.)
      q, mq = rng.choice(made)
      new = rng.choice([None, '`q`'])
      x = (mod.derive_with_suffix(ph, q) if new is None else
           mod.derive_with_suffix(ph, q, w.acc(new)))
      how, f, mo = 'derive_with_suffix', m['ftr'], None
    if mo is None:
      sfx, key, fs, ipa = mq['txn'], mq['ftr'][0], mq['ftr'], mq['ipa']
    else:
      sfx, key, fs, ipa = mo[0], mo[1], [mo[1]], mo[2]
    alias, txn = m['alias'] + sfx.upper(), m['txn'] + sfx
    mx = dict(alias=alias, txn=txn, ftr=f + fs, ph='{%s}' % txn,
              ipa=m['ipa'] + ipa, cmp=[alias],
              tr=dict(m['tr'], **{key: m['tr']['base'] if new is None
                                  else new}))
    ctx.saw('derived')
    P.check(x, mx, how)
    simple.append((x, mx))
  everything = list(simple)
  for _ in range(5):
    parts = [rng.choice(everything) for _ in range(rng.choice((2, 2, 3)))]
    if sum(len(m.get('cmps', [0])) for _, m in parts) > 6:
      continue
    xs = [x for x, _ in parts]
    k = rng.random()
    new = rng.choice([None, '`n`'])
    fnew = {} if new is None else {'new_tr': w.acc(new)}
    if k < .3:
      alt = rng.choice([None, {'semi': '`w`', 'base': '`b`'}])
      fa = {} if alt is None else {
          'alt_tr_dict': {k: w.acc(v) for k, v in alt.items()}}
      x = mod.compose(xs, 'kind', **fnew, **fa)
      m, how = composed(parts, 'kind', new, alt), 'compose'
    elif k < .55:
      semi, mono = rng.choice([None, '`y`']), rng.choice([None, '`m`'])
      kw = {}
      alt = {}
      if semi:
        kw['semi'], alt['semivowel'] = w.acc(semi), semi
      if mono:
        kw['mono'], alt['monophthong'] = w.acc(mono), mono
      x = mod.diphthong(xs, w.acc('`d`'), **kw)
      m, how = composed(parts, 'diphthong', '`d`', alt), 'diphthong'
    elif k < .8:
      x = mod.affricate(xs, w.acc('`c`'))
      m, how = composed(parts, 'affricate', '`c`'), 'affricate'
    else:
      parts = parts[:2]
      x = mod.click(*xs[:2])
      m, how = composed(parts, 'coarticulated'), 'click'
    ctx.saw('composed')
    P.check(x, plain(m), how)
    everything.append((x, m))
  # Lists of affricates and clicks.
  stop, fr = rng.choice(made), [rng.choice(made) for _ in range(2)]
  got = mod.ls_affricate(stop[0], [x for x, _ in fr], w.acc('`j`'))
  want = []
  for x, m in fr:
    want.append(composed([stop, (x, m)], 'affricate', '`j`'))
    if 'voiceless' in m['ftr']:
      e = dict(m, alias=m['alias'] + 'E', txn=m['txn'] + 'e',
               ftr=m['ftr'] + ['nonpulmonic'], ph='{%se}' % m['txn'],
               ipa=m['ipa'] + '`', cmp=[m['alias'] + 'E'],
               tr=dict(m['tr'], nonpulmonic=m['tr']['base']))
      want.append(composed([stop, (None, e)], 'affricate', '`j`'))
  ctx.expect(len(got) == len(want), 'phon', 'ls_affricate gives another number '
             'of affricates', got=len(got), want=len(want))
  for x, m in zip(got, want):
    P.check(x, plain(m), 'ls_affricate')
  stops, rel = rng.sample(made, 2), rng.sample(made, 2)
  got = mod.ls_click([x for x, _ in stops], [x for x, _ in rel])
  want = [composed([s, r], 'coarticulated') for s in stops for r in rel]
  ctx.expect(len(got) == len(want), 'phon', 'ls_click gives another number '
             'of clicks', got=len(got), want=len(want))
  for x, m in zip(got, want):
    P.check(x, plain(m), 'ls_click')
  # Copies.
  for x, m in rng.sample(everything, 3):
    add = rng.choice([None, ['new'], ['new', 'front']])
    alt = rng.choice([None, {'base': '`z`'}, {'other': '`o`'}])
    kw = {}
    if add:
      kw['add_ftr'] = add
    if alt:
      kw['alt_tr_dict'] = {k: w.acc(v) for k, v in alt.items()}
    c = p.import_phon(x, **kw)
    P.check(c, plain(dict(m, ftr=m['ftr'] + (add or []),
                          tr=dict(m['tr'], **(alt or {})))), 'import_phon')
    # A copy is its own.
    c.ftr.append('mine')
    c.tr_dict['mine'] = w.acc('`mine`')
  # None of this changed what it was made from.
  for x, m in everything:
    P.check(x, plain(m), 'something made from it')
  # Transliterations.
  some, seen = [], set()
  for x, m in rng.sample(everything, min(6, len(everything))):
    if m['txn'] not in seen:
      seen.add(m['txn'])
      some.append((x, m))
  xs = [x for x, _ in some]
  key = rng.choice(['base', ''])
  rules_ = [(p.ls_translit_by_key(xs, key), A.Rule(
      [(m['ph'], m['tr']['base']) for _, m in some]), 'ls_translit_by_key'),
            (p.ls_translit_base(xs), A.Rule(
                [(m['ph'], m['tr']['base']) for _, m in some]),
             'ls_translit_base')]
  x, m = rng.choice(some)
  k = rng.choice(sorted(m['tr']))
  rules_ += [
      (p.translit_by_key(x, k), A.Rule([(m['ph'], m['tr'][k])]),
       'translit_by_key'),
      (p.translit_base(x), A.Rule([(m['ph'], m['tr']['base'])]),
       'translit_base'),
      (p.translit_ipa(x), A.Rule([(m['ph'], m['ipa'])]), 'translit_ipa')]
  ipa, only = p.ls_translit_ipa(xs), p.print_only_ipa(xs)
  for _ in range(6):
    seq = [rng.choice(some)[1] for _ in range(rng.randrange(6))]
    t = ''.join(m['ph'] for m in seq)
    for f, model, name in rules_:
      want = model(t)
      if want is None:
        continue
      got = w.outs(f, t)
      ctx.saw('transliterations')
      ctx.expect(got == want, 'translit', name, text=t, got=sorted(got),
                 want=sorted(want), phonemes=[plain(m) for _, m in some])
    # (A composite may also be read as its parts.)
    want = ''.join(m['ipa'] for m in seq)
    got = w.outs(ipa, t)
    ctx.saw('transliterations')
    ctx.expect(want in got, 'translit', 'ls_translit_ipa', text=t,
               got=sorted(got), want=want)
    t2 = ''.join(rng.choice(['', '<x>=', '<x>']) + m['ph'] for m in seq)
    g2 = w.outs(only, t2)
    ctx.expect(g2 == got, 'translit', 'print_only_ipa', text=t2,
               got=sorted(g2), want=sorted(got))
    if seq:
      bad = t + '{unheard}'
      ctx.expect(not w.outs(ipa, bad), 'translit', 'ls_translit_ipa reads a '
                 'phoneme which is not on the list', text=bad)
  # Lists, unions and inventories.
  phs = [m['ph'] for _, m in some]
  got = [w.strings(f) for f in p.ph_list(xs)]
  ctx.expect(got == [{x} for x in phs], 'fields', 'ph_list', got=got,
             want=phs)
  got = [w.strings(f) for f in p.thing_ph_list('L', xs).value]
  ctx.expect(got == [{x} for x in phs], 'fields', 'thing_ph_list', got=got,
             want=phs)
  for f in (p.ph_union(xs), p.thing_ph_union('U', xs).value):
    got = w.strings(f)
    ctx.expect(got == set(phs), 'fields', 'ph_union', got=sorted(got),
               want=phs)
  star = re.compile(A.lit(*phs) + '*\\Z')
  cut = max(1, len(some) // 2)
  modified = re.compile('%s%s*\\Z' % (A.lit(*phs[:cut]),
                                      A.lit(*phs[cut:]) if phs[cut:] else ''))
  texts = [''.join(rng.choice(phs + ['{unheard}']) for _ in range(k))
           for k in (0, 1, 2, 3)]
  texts += [rng.choice(phs[:cut]) + ''.join(
      rng.choice(phs[cut:] or phs) for _ in range(k)) for k in range(3)]
  w.same(p.ph_star(xs), texts, star.match, 'fields', 'ph_star', phonemes=phs)
  w.same(p.thing_ph_star('S', xs).value, texts, star.match, 'fields',
         'thing_ph_star', phonemes=phs)
  if phs[cut:]:
    w.same(p.thing_ph_modified('M', xs[:cut], xs[cut:]).value, texts,
           modified.match, 'fields', 'thing_ph_modified', phonemes=phs[:cut],
           modifiers=phs[cut:])


# What ships.


def shipped(w):
  """The phonemes that ship."""
  ctx, rng = w.ctx, w.rng
  from nisaba.scripts.natural_translit.phonology import feature
  from nisaba.scripts.natural_translit.phonology import phoneme_inventory as ph
  from nisaba.scripts.natural_translit.phonology import romanizer
  from nisaba.scripts.natural_translit.phonology import transcriptor
  from nisaba.scripts.natural_translit.phonology.inventories import x_uni
  P = Phons(w)
  everything = list(ph.PHONEMES) + list(ph.COMBINING_MODIFIERS)
  known = {f.alias for f in feature.FEATURES}
  txns, aliases = {}, {}
  for x in everything:
    ctx.saw('shipped phonemes')
    ctx.case(('shipped', x.alias), True)
    for table, key in ((txns, x.txn), (aliases, x.alias)):
      ctx.expect(key not in table, 'shipped', 'two phonemes have the same '
                 'name', name=key, phonemes=[x.alias, getattr(
                     table.get(key), 'alias', '')])
      table[key] = x
    want = '{%s}' % '}{+}{'.join(c.txn for c in x.cmp)
    ctx.expect(w.strings(x.ph) == {want}, 'shipped', 'a phoneme is not '
               'written as its parts', phoneme=x.alias, want=want,
               got=sorted(w.strings(x.ph)))
    ctx.expect(set(x.ftr) <= known and x.ftr, 'shipped', 'a phoneme has '
               'features that there are not', phoneme=x.alias, ftr=x.ftr)
    ctx.expect('voiced' not in x.ftr or len(x.cmp) > 1 or
               not {'voiceless', 'devoiced'} & set(x.ftr), 'shipped',
               'a phoneme is both voiced and voiceless', phoneme=x.alias,
               ftr=x.ftr)
    for k, f in x.tr_dict.items():
      got = w.strings(f)
      ctx.expect(len(got) == 1 and re.fullmatch('(`[^`]+`)+', min(got)),
                 'shipped', 'a phoneme has no transliteration for one of its '
                 'keys', phoneme=x.alias, key=k, got=sorted(got))
      ctx.expect(k == 'base' or k in x.ftr or k in (
          'semivowel', 'monophthong'), 'shipped', 'a transliteration is for '
                 'something that the phoneme is not', phoneme=x.alias, key=k)
    got = getattr(ph.PHONEME_INVENTORY, x.alias, None)
    ctx.expect(got is not None and w.strings(got) == w.strings(x.ph),
               'shipped', 'a phoneme is not in the inventory',
               phoneme=x.alias)
  # The features of a phoneme are those of the sound that its IPA symbol
  # stands for, by the names in the inventory of phonological symbols.
  uni = {s.ipa: s.name for s in x_uni.PHONEMES}
  for x in ph.PHONEMES:
    if x.ipa not in uni or len(x.cmp) > 1:
      continue
    if x.alias in ('SHL', 'ZHL'):
      # (A lateral postalveolar fricative has no symbol of its own.)
      continue
    name = uni[x.ipa].replace('\xad', '').replace('non-sib', 'nonsib')
    words = set()
    for word in re.split('[ -]', name):
      words |= set(WORDS.get(word, word).split())
    ctx.saw('named')
    ctx.expect(words <= set(x.ftr) and
               set(x.ftr) & PLACES <= words | {'labial'}, 'shipped: named',
               'the features of a phoneme are not those of its IPA symbol',
               phoneme=x.alias, ipa=x.ipa, name=name, ftr=x.ftr)
  transcriptions(w, P, ph, transcriptor, romanizer, everything)


PLACES = set('bilabial labiodental dental alveolar postalveolar palatal '
             'retroflex velar uvular pharyngeal epiglottal glottal front '
             'near_front center near_back back'.split())
WORDS = {'rounded': 'labial', 'unrounded': 'nonlabial', 'labial': 'labial'}


def transcriptions(w, P, ph, transcriptor, romanizer, everything):
  """What is made of random strings of the phonemes that ship."""
  ctx, rng = w.ctx, w.rng
  views = [P.view(x) for x in everything]
  text = {v['alias']: (min(v['ph']), v['ipa']) for v in views}
  heard = [text[x.alias] for x in ph.PHONEMES] + [text['DURH']]
  ipa = transcriptor.txn_to_ipa()
  base = A.Rule([(min(v['ph']), min(v['tr']['base']))
                 for v in views if v['alias'] in {p.alias for p in
                                                  ph.PHONEMES}])
  diph = A.Rule([(min(v['ph']), min(v['tr']['diphthong'])) for v in views
                 if v['alias'] in {p.alias for p in ph.DIPHTHONG}])
  affr = A.Rule([(min(v['ph']), min(v['tr']['affricate'])) for v in views
                 if v['alias'] in {p.alias for p in ph.AFFRICATE}])
  mods = A.Rule([(min(v['ph']), '`DEL`') for v in views
                 if v['alias'] in {p.alias for p in ph.COMBINING_MODIFIERS}])
  rom = [(romanizer.TRANSLIT_DIPHTHONG, diph, 'TRANSLIT_DIPHTHONG'),
         (romanizer.TRANSLIT_AFFRICATE, affr, 'TRANSLIT_AFFRICATE'),
         (romanizer.IGNORE_MODIFIERS, mods, 'IGNORE_MODIFIERS'),
         (romanizer.TRANSLIT_BASE, base, 'TRANSLIT_BASE')]
  composite = [x for x in heard if '{+}' in x[0]]
  for k in range(ctx.n(2500, 40000)):
    seq = [rng.choice(composite if rng.random() < .3 else heard)
           for _ in range(rng.randrange(1, 5))]
    if k < len(heard):
      seq[rng.randrange(len(seq))] = heard[k]
    t = ''.join(p for p, _ in seq)
    ctx.saw('transcriptions')
    ctx.case(t, len(seq) > 1)
    aligned = ''.join(rng.choice(['', '<a>=', '<a><ka>=']) + p for p, _ in seq)
    got = w.outs(ipa, aligned)
    want = ''.join(i for _, i in seq)
    ctx.expect(got == {want}, 'transcription', 'phonemes are not transcribed '
               'by their IPA symbols', text=aligned, got=sorted(got),
               want=want)
    for f, model, name in rom:
      want = model(t)
      if want is None:
        continue
      got = w.outs(f, t)
      ctx.saw('romanizations')
      ctx.expect(got == want, 'romanization', name, text=t,
                 got=sorted(got)[:4], want=sorted(want)[:4])


def work(ctx, shard):
  w = World(ctx)
  if shard == 'shipped':
    shipped(w)
    return
  for i in range(ctx.n(12, 220)):
    for _ in range(6):
      rules(w)
    cascades(w)
    for _ in range(5):
      lists(w)
      alignments(w)
      kinds(w)
      extractions(w)
      syllables(w)
    for _ in range(4):
      chars(w)
      phons(w)
