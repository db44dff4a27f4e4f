"""P06: the well-formedness acceptors accept just the script's syllables."""

import itertools
import re

import brahmic as B
import fstio as F

LABELS = lambda: ['//nisaba/scripts/brahmic:wellformed.far',
                  '//nisaba/scripts/brahmic:wellformed_utf8.far'
                  ] + B.iso_labels()
RULE = ('sequences of the letters, signs, joiners and other characters of each '
        'script: all of up to two units, well-formed words, and such words '
        'with one unit inserted, deleted, doubled, replaced or swapped; a case '
        'is (script, text), non-trivial when it has two or more units')
ASSUMPTIONS = ['the oracle is a regular expression over the letters listed in '
               'data/repertoire.json and the current tables, written from the '
               'description of syllables']
SCALE = 4  # Of the quick tier.
REQUIRED = {'accepted': 30000, 'rejected': 60000, 'utf8': 60000,
            'near_miss': 20000}


def shards(tier):
  return B.BRAHMIC


def alt(xs):
  xs = sorted({x for x in xs if x}, key=lambda x: (-len(x), x))
  return '(?:%s)' % '|'.join(map(re.escape, xs)) if xs else '(?!)'


def model(sc):
  t = sc.cat
  c = alt(t['consonant']) + alt(t['subjoined_consonant']) + '?'
  cluster = '(?:%s%s)*%s' % (c, alt(t['virama'] + t['preserve']), c)
  tail = '%s?%s?%s?' % tuple(alt(t[x]) for x in (
      'vowel_length_sign', 'coda', 'dead_consonant'))
  syl = '(?:%s|%s%s%s)%s' % (alt(t['vowel']), cluster, alt(t['vowel_sign']),
                             '' if sc.needs_vowel else '?', tail)
  end = '%s%s%s?' % (cluster, alt(t['virama']), alt(t['dead_consonant']))
  return re.compile('(?:%s|%s|%s|%s)*' % (
      syl, end, alt(t['standalone']), alt(t['accept'])))


def work(ctx, script):
  rng = ctx.rng
  sc = B.Script(script, B.pinned()[script])
  rx = model(sc)
  f = F.fst(F.BR + 'wellformed', script)
  u = F.fst(F.BR + 'wellformed_utf8', script)
  units = list(dict.fromkeys(sc.units + sc.accept + sc.preserve))
  odd = [' ', 'a', '1', '.', '[', '\\', '\u200b', '\u200c', '\u200d', '\u0964',
         'क', 'ક', 'ක', 'ա', '\u0301', '日', '😀']

  def one(w, trivial=False):
    want = bool(rx.fullmatch(w))
    ctx.case((script, w), not trivial, sample=ascii(w))
    got, got8 = F.accepts(f, w), F.accepts(u, w, 'utf8')
    ctx.saw('accepted' if want else 'rejected')
    ctx.saw('utf8')
    ctx.expect(got == want, '%s:%s' % (script, 'rejects' if want else
                                       'accepts'),
               'wrong decision on whether text is well-formed', text=ascii(w),
               accepted=got, wellformed=want)
    ctx.expect(got8 == want, '%s:%s-utf8' % (script, 'rejects' if want else
                                             'accepts'),
               'wrong decision on whether text is well-formed', text=ascii(w),
               accepted=got8, wellformed=want)
    return want

  one('', True)
  for x in units + odd:
    one(x, True)
  for p in itertools.product(units, repeat=2):
    if ctx.thorough or rng.random() < .5:
      one(''.join(p))
  cats = [c for c in B.CATS + ['preserve', 'accept'] if sc.cat.get(c)]
  for _ in range(ctx.n(2500, 40000)):
    parts = []
    for _ in range(rng.randint(1, 4)):
      parts.append(sc.akshara(rng, True))
    one(''.join(parts))
    w = [x for p in parts for x in p]
    k = rng.randrange(len(w))
    op = rng.randrange(5)
    new = rng.choice(sc.cat[rng.choice(cats)]) if rng.random() < .9 else (
        rng.choice(odd))
    if op == 0:
      w.insert(k, new)
    elif op == 1:
      del w[k]
    elif op == 2:
      w.insert(k, w[k])
    elif op == 3:
      w[k] = new
    elif k + 1 < len(w):
      w[k], w[k + 1] = w[k + 1], w[k]
    ctx.saw('near_miss')
    one(''.join(w))
  for _ in range(ctx.n(1500, 20000)):
    one(''.join(rng.choice(sc.cat[rng.choice(cats)])
                for _ in range(rng.randint(2, 6))))
