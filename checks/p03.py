"""P03: romanization follows ISO 15919 letter by letter, alike in all scripts."""

import itertools
import json
import os
import re

import brahmic as B
import fstio as F

LABELS = lambda: ['//nisaba/scripts/brahmic:iso.far',
                  '//nisaba/scripts/brahmic:iso_utf8.far'] + B.iso_labels()
RULE = ('all letters, letter + sign, letter + virama, two-letter conjunct and '
        'vowel-after-syllable combinations, and random well-formed words, of '
        'every script, romanized by the script\'s converter and, in part, by '
        'the one for all scripts; a case is (script, word), non-trivial when '
        'it has two or more letters')
ASSUMPTIONS = ['the value of a letter is looked up by its Unicode name in '
               'data/iso_names.json (one value for all scripts, and the '
               'exceptions of each script)',
               'texts are in NFC, and split into letters in one way only']
SCALE = 4  # Of the quick tier.
REQUIRED = {'words': 60000, 'letters': 700, 'scripts_agree': 60,
            'vowel_pairs': 150}


def shards(tier):
  return ['agree'] + B.BRAHMIC if tier == 'quick' else ['agree'] + [
      '%s/%d' % (s, k) for s in B.BRAHMIC for k in range(2)]


def names():
  here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  with open(os.path.join(here, 'data', 'iso_names.json')) as f:
    return json.load(f)


class Model:

  def __init__(self, script):
    d = names()
    self.sc = B.Script(script, B.pinned()[script])
    self.script = script
    own = d['own'].get(script, {})
    self.inherent = d['inherent'].get(script, d['inherent']['common'])
    self.value = {}
    for c in B.CATS:
      for u in B.pinned()[script].get(c, []):
        k = c + '|' + B.letter(script, u)
        v = own.get(k, d['common'].get(k))
        if v is not None:
          self.value[c, u] = v
    self.cats = {c: [u for cc, u in self.value if cc == c] for c in B.CATS}
    units = sorted({u for _, u in self.value}, key=lambda u: (-len(u), u))
    self.rx = re.compile('|'.join(map(re.escape, units)))

  def split_ok(self, parts):
    text = ''.join(u for _, u in parts)
    return (B.adjacent_nfc(text) == text
            and self.rx.findall(text) == [u for _, u in parts])

  def romanize(self, parts):
    """Romanization of well-formed text, given as (kind, letter) pairs."""
    out, open_, i = [], False, 0
    while i < len(parts):
      c, u = parts[i]
      if c == 'consonant':
        out.append(self.value[c, u])
        i += 1
        if i < len(parts) and parts[i][0] == 'subjoined_consonant':
          out.append(self.value[parts[i]])
          i += 1
        if i < len(parts) and parts[i][0] == 'vowel_sign':
          out.append(self.value[parts[i]])
          i += 1
        elif i < len(parts) and parts[i][0] == 'virama':
          i += 1
        else:
          out.append(self.inherent)
        open_ = True
        continue
      if c == 'vowel':
        out.append(('.' if open_ else '') + self.value[c, u])
        open_ = True
      else:
        out.append(self.value[c, u])
        open_ = False
      i += 1
    return ''.join(out)

  def pick(self, rng, c):
    return (c, rng.choice(self.cats[c]))

  def word(self, rng, n):
    """A well-formed word as (kind, letter) pairs."""
    w = []
    cats = self.cats
    for _ in range(rng.randint(1, n)):
      r = rng.random()
      if r < .22 and cats['vowel']:
        w.append(self.pick(rng, 'vowel'))
      elif r < .27 and cats['standalone']:
        w.append(self.pick(rng, 'standalone'))
        continue
      else:
        while True:
          w.append(self.pick(rng, 'consonant'))
          if cats['subjoined_consonant'] and rng.random() < .25:
            w.append(self.pick(rng, 'subjoined_consonant'))
          if not cats['virama'] or rng.random() > .35:
            break
          w.append(self.pick(rng, 'virama'))
        r = rng.random()
        if r < .12 and cats['virama'] and not self.sc.needs_vowel:
          w.append(self.pick(rng, 'virama'))
          continue
        if self.sc.needs_vowel or r < .65:
          w.append(self.pick(rng, 'vowel_sign'))
      for c, p in (('vowel_length_sign', .15), ('coda', .25),
                   ('dead_consonant', .15)):
        if cats[c] and rng.random() < p:
          w.append(self.pick(rng, c))
    return w


def agree(ctx):
  """Letters of one name have one romanization, whatever the script."""
  own = names()['own']
  by = {}
  for s in B.BRAHMIC:
    f = F.fst(F.BR + 'iso', 'FROM_' + s)
    for c, units in B.pinned()[s].items():
      if c not in ('consonant', 'vowel'):
        continue
      for u in units:
        k = c + '|' + B.letter(s, u)
        if k in own.get(s, {}) or B.adjacent_nfc(u) != u:
          continue
        text = u
        if c == 'consonant':
          v = B.pinned()[s].get('virama') or ['']
          text += v[0]
        o = F.outputs(f, text, n=1)
        got = o[0][0] if o else None
        if got and c == 'consonant' and not v[0]:  # No virama: with its vowel.
          got = got[:-1] if got[-1] == 'a' else got + ' without a'
        by.setdefault(k, {}).setdefault(got, []).append(s)
  for k, vals in by.items():
    scripts = [s for x in vals.values() for s in x]
    if len(scripts) > 1:
      ctx.case(('agree', k), True)
      ctx.saw('scripts_agree')
      ctx.expect(len(vals) == 1, 'agree', 'a letter of the same name has '
                 'different romanizations in two scripts', letter=k,
                 values=vals)


def work(ctx, shard):
  if shard == 'agree':
    agree(ctx)
    return
  script, _, part = shard.partition('/')
  m = Model(script)
  rng = ctx.rng
  byte = F.fst(F.BR + 'iso', 'FROM_' + script)
  utf8 = F.fst(F.BR + 'iso_utf8', 'FROM_' + script)
  brah = F.fst(F.BR + 'iso', 'FROM_BRAHMIC')

  def one(parts, others):
    if not m.split_ok(parts):
      return
    text = ''.join(u for _, u in parts)
    want = m.romanize(parts)
    ctx.case((script, text), len(parts) > 1, sample=[text, want])
    ctx.saw('words')
    got = F.outputs(byte, text, n=1)
    ctx.expect(got and got[0][0] == want,
               '%s:value' % script, 'not the ISO 15919 romanization',
               text=ascii(text), want=want, got=got)
    if others:
      got = F.outputs(utf8, text, 'utf8', 1)
      ctx.expect(got and got[0][0] == want, '%s:value-utf8' % script,
                 'not the ISO 15919 romanization', text=ascii(text),
                 want=want, got=got)
      if not any(c == 'symbol' for c, _ in parts):
        got = F.outputs(brah, text, n=1)
        ctx.expect(got and got[0][0] == want, '%s:value-brahmic' % script,
                   'not the ISO 15919 romanization', text=ascii(text),
                   want=want, got=got)

  if part in ('', '0'):
    c0 = ('consonant', next(u for u in m.cats['consonant'] if len(u) == 1))
    v0 = m.cats['vowel_sign'][:1]
    base = [c0] + ([('vowel_sign', v0[0])] if m.sc.needs_vowel else [])
    for c in B.CATS:
      for u in m.cats[c]:
        ctx.saw('letters')
        x = (c, u)
        if c == 'consonant':
          if not m.sc.needs_vowel:
            one([x], True)
            for v in m.cats['virama']:
              one([x, ('virama', v)], True)
              for y in m.cats['vowel']:
                one([x, ('virama', v), ('vowel', y)], True)
          for y in m.cats['vowel_sign']:
            one([x, ('vowel_sign', y)], True)
          for y in m.cats['subjoined_consonant']:
            one([x, ('subjoined_consonant', y)], True)
          for v in m.cats['virama']:
            for y in m.cats['consonant']:
              one([x, ('virama', v), ('consonant', y)] + base[1:],
                  ctx.thorough)
        elif c == 'vowel':
          one([x], True)
          one(base + [x], True)
          for y in m.cats['vowel']:
            ctx.saw('vowel_pairs')
            one([x, ('vowel', y)], True)
          for y in m.cats['vowel_sign']:
            one([c0, ('vowel_sign', y), x], True)
          for k in m.cats['coda']:
            one(base + [('coda', k), x], True)
        elif c == 'vowel_sign':
          one([c0, x], True)
        elif c in ('coda', 'dead_consonant', 'vowel_length_sign'):
          one(base + [x], True)
          for y in m.cats['vowel']:
            one([('vowel', y), x], True)
        elif c == 'standalone':
          one([x], True)
  for _ in range(ctx.n(3500, 30000)):
    one(m.word(rng, 5), rng.random() < .3)
