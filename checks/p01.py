"""P01: conversion to ISO 15919 and back loses nothing."""

import itertools
import re
import unicodedata

import brahmic as B
import fstio as F

LABELS = lambda: ['//nisaba/scripts/brahmic:iso.far',
                  '//nisaba/scripts/brahmic:iso_utf8.far'] + B.iso_labels()
RULE = ('texts made of the units (letters, signs, marks) each script supports, '
        'pinned in data/repertoire.json plus those in the current tables: all '
        'units, all pairs of units, random well-formed and ill-formed texts; '
        'a case is (script, text); non-trivial when it has two or more units')
ASSUMPTIONS = ['texts where NFC composes across two units and leaves a bare '
               'nukta are left out (it is not supported on its own)',
               'subjoined consonants (Lepcha, Limbu) are only tried after a '
               'consonant', 'Thaana consonants are only tried with a vowel sign, as the '
               'script has no inherent vowel']


def shards(tier):
  return B.BRAHMIC if tier == 'quick' else [
      '%s/%d' % (s, k) for s in B.BRAHMIC for k in range(4)]


SCALE = 2  # Of the quick tier.
REQUIRED = lambda tier: {'round_trip': 60000, 'utf8_agrees': 20000}


def thaana_ok(sc, parts):
  """In a script without inherent vowels, consonants come with a vowel."""
  if not sc.needs_vowel:
    return True
  cons, sign = set(sc.cat['consonant']), set(sc.cat['vowel_sign'])
  vir = set(sc.cat['virama'])
  for a, b in itertools.zip_longest(parts, parts[1:]):
    if a in cons and b not in sign and b not in vir:
      return False
  return True


def subjoined_ok(sc, parts):
  """Subjoined consonants only occur after a consonant."""
  sub, cons = set(sc.cat['subjoined_consonant']), set(sc.cat['consonant'])
  return all(b not in sub or a in cons
             for a, b in zip((None,) + tuple(parts), parts))


def check(ctx, sc, text, tt, frm, to):
  where = ascii(text)
  o = F.outputs(frm, text, tt, 2)
  ctx.saw('total')
  if not ctx.expect(o, '%s:unconvertible' % sc.script,
                    'supported text has no romanization', text=text,
                    code=where, token_type=tt):
    return None
  ctx.expect(len(o) == 1 or o[1][1] > o[0][1] + 1e-6,
             '%s:from-ambiguous' % sc.script,
             'two equally good romanizations', text=where, out=o,
             token_type=tt)
  iso = o[0][0]
  leak = [c for c in iso if c in sc.native]
  ctx.expect(not leak, '%s:leak' % sc.script,
             'native characters in the romanization', text=where, iso=iso,
             leak=ascii(leak))
  want = B.adjacent_nfc(text)
  b = F.outputs(to, iso, tt, 2)
  ctx.saw('round_trip')
  if ctx.expect(b, '%s:no-way-back' % sc.script,
                'a romanization has no native form', text=where, iso=iso,
                token_type=tt):
    got = b[0][0]
    ctx.expect(got == want, '%s:lossy' % sc.script,
               'text is not restored from its romanization', text=where,
               iso=iso, got=ascii(got), want=ascii(want), token_type=tt)
    ctx.expect(len(b) == 1 or b[1][1] > b[0][1] + 1e-6,
               '%s:to-ambiguous' % sc.script,
               'two equally good native forms of a romanization', text=where,
               iso=iso, out=ascii(b), token_type=tt)
  return o


def work(ctx, shard):
  script, _, part = shard.partition('/')
  sc = B.Script(script, B.pinned()[script])
  sc.native = {c for c in sc.chars if ord(c) > 0x7f and
               not unicodedata.name(c, '').startswith('LATIN')}
  # A mark may compose with one before it, and leave the rest behind.
  sc.tokens = re.compile('(?:%s)*' % '|'.join(sorted(
      {re.escape(B.adjacent_nfc(u)) for u in sc.units},
      key=lambda u: (-len(u), u))))
  fsts = {tt: (F.fst(F.BR + 'iso' + s, 'FROM_' + script),
               F.fst(F.BR + 'iso' + s, 'TO_' + script))
          for tt, s in (('byte', ''), ('utf8', '_utf8'))}

  def one(parts, both):
    if not thaana_ok(sc, parts) or not subjoined_ok(sc, parts):
      return
    text = ''.join(parts)
    if not sc.tokens.fullmatch(B.adjacent_nfc(text)):
      return
    ctx.case((script, text), len(parts) > 1, sample=text)
    a = check(ctx, sc, text, 'byte', *fsts['byte'])
    if both:
      b = check(ctx, sc, text, 'utf8', *fsts['utf8'])
      ctx.saw('utf8_agrees')
      ctx.expect(a and b and a[0] == b[0], script + ':utf8', 'byte and UTF-8 converters differ',
                 text=ascii(text), byte=a, utf8=b)

  if not part or part == '0':
    for u in sc.units:
      one([u], True)
    for p in itertools.product(sc.units, repeat=2):
      one(p, ctx.thorough or ctx.rng.random() < .1)
  for _ in range(ctx.n(6000, 20000)):
    if ctx.rng.random() < .5:
      one([sc.akshara(ctx.rng) for _ in range(ctx.rng.randint(2, 6))]
          if not sc.needs_vowel else [sc.wellformed(ctx.rng, 5)], True)
    else:
      one([sc.some(ctx.rng, ctx.rng.choice([c for c in B.CATS if sc.cat[c]]))
           for _ in range(ctx.rng.randint(2, 8))], True)
