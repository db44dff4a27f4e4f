"""P07: normalizers rewrite text just as their tables say."""

import json
import os

import brahmic as B
import fstio as F
import gen
import normref as N
import refmodel as R

LABELS = lambda: ['//nisaba/scripts/brahmic:%s%s.far' % (x, y)
                  for x in ('visual_norm', 'reading_norm', 'fixed', 'iso')
                  for y in ('', '_utf8')] + B.all_labels()
RULE = ('texts of the characters of a script, rich in left and right sides of '
        'its rules, joiners, repeated marks and syllables; a case is '
        '(normalizer, text), non-trivial when the text is changed')
ASSUMPTIONS = ['the oracle is a rewriter over Python strings that reads the '
               'tables as built, and data/spellings.json, in which the result '
               'for each spelling listed in a table is recorded',
               'the fixed Malayalam rules are not functional: only the best '
               'result is decided']
SCALE = 4  # Of the quick tier.
REQUIRED = {'visual': 25000, 'reading': 6000, 'fixed': 2000, 'changed': 15000,
            'recorded': 400}
READING = {'HI': ('Deva', 'hi'), 'BENG': ('Beng', ''), 'LEPC': ('Lepc', ''),
           'MLYM': ('Mlym', '')}


def shards(tier):
  return (['visual/%s/' % s for s in B.BRAHMIC]
          + ['visual/Beng/as', 'visual/Beng/bn']
          + ['reading/%s/' % k for k in READING] + ['fixed/MLYM/'])


def recorded():
  here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  with open(os.path.join(here, 'data', 'spellings.json')) as f:
    return json.load(f)


def work(ctx, shard):
  kind, script, lang = shard.split('/')
  rng = ctx.rng
  if kind == 'fixed':
    fixed(ctx)
    return
  if kind == 'visual':
    key = lang or script
    ref = N.Visual(script, lang)
    t = gen.Texts(script)
    path = 'visual_norm'
  else:
    key = script
    script, lang = READING[key]
    ref = N.Reading(script, lang)
    t = gen.Texts(script, ('reading_norm', lang + '/reading_norm')
                  if lang else ('reading_norm',))
    path = 'reading_norm'
  f = F.fst(F.BR + path, key)
  u = F.fst(F.BR + path + '_utf8', key)

  def one(w, want=None, utf8=False):
    if want is None:
      try:
        want = ref(w)
      except R.Ambiguous:
        ctx.saw('undetermined')
        return
    ctx.case((path, key, w), want != w, sample=[ascii(w), ascii(want)])
    ctx.saw(kind)
    if want != w:
      ctx.saw('changed')
    o = F.outputs(f, w, n=2)
    ctx.expect([x for x, _ in o] == [want], '%s:%s' % (kind, key),
               'not the result the tables prescribe', text=ascii(w),
               got=ascii(o), want=ascii(want))
    if utf8:
      o = F.outputs(u, w, 'utf8', 2)
      ctx.expect([x for x, _ in o] == [want], '%s:%s-utf8' % (kind, key),
                 'not the result the tables prescribe', text=ascii(w),
                 got=ascii(o), want=ascii(want))

  for w, want in recorded()[path].get(key, {}).items():
    ctx.saw('recorded')
    one(w, want, True)
  for a in t.lhs:
    for _ in range(ctx.n(4, 60)):
      one(t.piece(rng) * (rng.random() < .7) + a
          + t.piece(rng) * (rng.random() < .7), utf8=rng.random() < .3)
    for b in rng.sample(t.lhs, min(len(t.lhs), ctx.n(6, 60))):
      # Overlapping matches.
      k = rng.randrange(len(b))
      one(a + b[k:])
      one(a[:-1] + b)
  for _ in range(ctx.n(1800, 25000)):
    one(t.any(rng, 5), utf8=rng.random() < .25)


def fixed(ctx):
  rng = ctx.rng
  f = F.fst(F.BR + 'fixed', 'MLYM')
  u = F.fst(F.BR + 'fixed_utf8', 'MLYM')
  to = F.fst(F.BR + 'iso', 'TO_MLYM')
  rules = B.rules('Mlym', 'fixed')
  pool = [a for a, _ in rules if a.isascii()]
  letters = ('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_^~')

  def one(w, want):
    ctx.case(('fixed', w), True, sample=w)
    ctx.saw('fixed')
    o = F.outputs(f, w, n=1)
    got = o[0][0] if o else None
    ctx.expect(got == want, 'fixed:MLYM', 'not the result the rules prescribe',
               text=w, got=got, want=want)
    if rng.random() < .3:
      o8 = F.outputs(u, w, 'utf8', 1)
      ctx.expect((o8[0][0] if o8 else None) == want, 'fixed:MLYM-utf8',
                 'not the result the rules prescribe', text=w, got=o8,
                 want=want)

  for w, want in recorded()['fixed']['MLYM'].items():
    ctx.saw('recorded')
    one(w, want)
  for _ in range(ctx.n(2500, 30000)):
    w = ''.join(rng.choice(pool) if rng.random() < .75 else
                rng.choice(letters) for _ in range(rng.randint(1, 6)))
    iso = R.cascade(rules, w)
    o = F.outputs(to, iso, n=1)
    one(w, o[0][0] if o else None)
