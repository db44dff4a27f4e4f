"""P09: visual and reading normalization of Arabic-script languages."""

import unicodedata

import abjad as A
import brahmic as B
import fstio as F
import nbuild
import refmodel as R

LABELS = lambda: ['//nisaba/scripts/abjad_alphabet:%s%s.far' % (x, y)
                  for x in ('visual_norm', 'reading_norm')
                  for y in ('', '_utf8')] + nbuild.tsvs(
                      'nisaba/scripts/abjad_alphabet')
RULE = ('texts of Arabic-script characters, rich in sequences listed in the '
        'tables of the language, in all positions of a word, with joiners, '
        'presentation forms, marks and other characters; a case is '
        '(language, text), non-trivial when normalization changes it')
ASSUMPTIONS = ['the oracle is a rewriter over Python strings that reads the '
               'tables as built, and data/abjad.json, in which the result for '
               'each listed spelling is recorded in four positions of a word',
               'stability is only asked of texts with neither joiners nor '
               'marks out of canonical order']
SCALE = 3  # Of the quick tier.
REQUIRED = {'visual': 30000, 'reading': 30000, 'recorded': 2000,
            'changed': 15000, 'presentation': 9000, 'stable': 15000,
            'utf8': 15000}


def shards(tier):
  return A.LANGS


def disorder(w):
  return B.disorder(unicodedata.normalize('NFKD', w)) or B.disorder(w)


def work(ctx, lang):
  rng = ctx.rng
  vis = [F.fst(F.AB + 'visual_norm' + x, lang) for x in ('', '_utf8')]
  rea = [F.fst(F.AB + 'reading_norm' + x, lang) for x in ('', '_utf8')]
  mv, mr = A.Visual(lang), A.Reading(lang)
  rec = A.recorded()
  core = [c for c in A.sigma() if 0x600 <= ord(c) < 0x900]
  other = [c for c in A.sigma() if not 0x600 <= ord(c) < 0x900 and
           not 0xfb50 <= ord(c) < 0xff00]
  lhs = mv.lhs + mr.lhs
  fires = {a for a in mv.lhs}

  def one(w, want=None, utf8=False, kind='visual'):
    fsts, m = (vis, mv) if kind == 'visual' else (rea, mr)
    if want is None:
      try:
        want = m(w)
      except R.Ambiguous:
        ctx.saw('undetermined')
        return None
    ctx.case((kind, lang, w), want != w, sample=[ascii(w), ascii(want)])
    ctx.saw(kind)
    if want != w:
      ctx.saw('changed')
    o = F.outputs(fsts[0], w, n=2)
    ctx.expect([x for x, _ in o] == [want], '%s:%s' % (kind, lang),
               'not the result the tables prescribe', text=ascii(w),
               got=ascii(o), want=ascii(want))
    if utf8:
      ctx.saw('utf8')
      o = F.outputs(fsts[1], w, 'utf8', 2)
      ctx.expect([x for x, _ in o] == [want], '%s:%s-utf8' % (kind, lang),
                 'not the result the tables prescribe', text=ascii(w),
                 got=ascii(o), want=ascii(want))
    return o[0][0] if o else None

  def stable(w, g):
    if g is None or disorder(w) or set(w) & set(B.ZW):
      return
    ctx.saw('stable')
    h = F.best(vis[0], g)
    if h != g:
      again = sorted((a for a in fires if a in g and a not in h and
                      (len(a) > 1 or a == g)), key=lambda a: (-len(a), a))
      ctx.violate('unstable:%s:%s' % (lang, B.name(again[0]) if again else
                                      'other'),
                  'normalizing twice differs from once', text=ascii(w),
                  once=ascii(g), twice=ascii(h))

  for kind in ('visual', 'reading'):
    for w, want in rec[kind][lang].items():
      ctx.saw('recorded')
      one(w, want, True, kind)
  # Presentation forms are as good as what they stand for.
  c = A.CONTEXT
  for a in rec['joint']:
    k = unicodedata.normalize('NFKC', a)
    if k == a:
      continue
    for l, r in ((c, c), ('', ''), (c, ''), ('', c)):
      ctx.saw('presentation')
      got, want = (F.best(vis[0], l + x + r) for x in (a, k))
      ctx.case((lang, l + a + r), True, sample=ascii(l + a + r))
      ctx.expect(got is not None and want is not None and
                 unicodedata.normalize('NFKC', got)
                 == unicodedata.normalize('NFKC', want),
                 'presentation:%s' % lang, 'a presentation form is not '
                 'normalized like the letters it stands for',
                 text=ascii(l + a + r), got=ascii(got), letters=ascii(k),
                 want=ascii(want))

  parts = sorted(set(''.join(lhs)) - set(B.ZW))
  marks = [x for x in parts if unicodedata.category(x) == 'Mn']
  for a in core:
    stable(a, one(a))
    one(a, kind='reading')
  for a in parts:
    for b in parts if ctx.thorough else marks:
      stable(a + b, one(a + b))
      one(a + b, kind='reading')

  def word():
    w = ''
    for _ in range(rng.randint(1, 5)):
      x = rng.random()
      if x < .45:
        w += rng.choice(core)
      elif x < .85:
        w += rng.choice(lhs)
      elif x < .9:
        w += rng.choice(mv.pres)
      elif x < .95:
        w += rng.choice(B.ZW)
      else:
        w += rng.choice(other)
    return w

  for _ in range(ctx.n(3500, 40000)):
    w = word()
    stable(w, one(w, utf8=rng.random() < .4))
    one(w, utf8=rng.random() < .4, kind='reading')
  for a in lhs:
    for b in rng.sample(lhs, min(len(lhs), ctx.n(8, 80))):
      for w in (a + b, a[:-1] + b, a + b[1:]):
        stable(w, one(w))
        one(w, kind='reading')
