"""Brahmic workloads: tables of a script, and generators of text from them."""

import json
import os
import unicodedata

from fstio import BR, BRAHMIC
import nbuild
import refmodel as R

DATA = BR + 'data/'
CATS = ('consonant vowel vowel_sign coda virama standalone dead_consonant '
        'subjoined_consonant vowel_length_sign symbol').split()
ZW = '\u200b\u200c\u200d'


def table(script, name):
  if name == 'symbol':  # Joiners, for all scripts.
    return R.rows(DATA + 'symbol.tsv')
  return R.rows(os.path.join(DATA, script, name + '.tsv'))


def iso_labels():
  """All tables behind the conversion to ISO."""
  return [x for x in nbuild.tsvs('nisaba/scripts/brahmic/data')
          if x.split(':')[0].count('/') <= 6]


def all_labels():
  """All tables of Brahmic scripts, those of languages too."""
  return nbuild.tsvs('nisaba/scripts/brahmic/data')


def pinned():
  """The repertoire recorded in /verif/data, per script and table."""
  here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  with open(os.path.join(here, 'data', 'repertoire.json')) as f:
    return json.load(f)


def sigma():
  """The characters each script's FSTs take, recorded in /verif/data."""
  here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  with open(os.path.join(here, 'data', 'sigma.json')) as f:
    return json.load(f)


def rules(script, name):
  return R.rules(os.path.join(DATA, script, name + '.tsv'))


class Script:
  """The tables of a script as built, and text made of them."""

  def __init__(self, script, extra=None):
    self.script = script
    self.cat = {c: list(dict.fromkeys(a for a, _ in table(script, c)))
                for c in CATS + ['preserve', 'accept']}
    for c, rows in (extra or {}).items():
      have = set(self.cat[c])
      self.cat[c] += [a for a in rows if a not in have]
    self.preserve, self.accept = self.cat['preserve'], self.cat['accept']
    self.needs_vowel = script == 'Thaa'
    self.units = list(dict.fromkeys(u for c in CATS for u in self.cat[c]))
    self.chars = sorted(set(''.join(self.units)))

  def some(self, rng, c):
    return rng.choice(self.cat[c]) if self.cat[c] else ''

  def maybe(self, rng, c, p):
    return self.some(rng, c) if self.cat[c] and rng.random() < p else ''

  def cons(self, rng):
    return self.some(rng, 'consonant') + self.maybe(
        rng, 'subjoined_consonant', .25)

  def akshara(self, rng, joiners=False):
    """One well-formed syllable."""
    r = rng.random()
    if r < .18 and self.cat['vowel']:
      w = self.some(rng, 'vowel')
    elif r < .23 and self.cat['standalone']:
      return self.some(rng, 'standalone')
    else:
      w = self.cons(rng)
      while rng.random() < .35 and (self.cat['virama']):
        if joiners and self.preserve and rng.random() < .4:
          w += rng.choice(self.preserve)
        else:
          w += self.some(rng, 'virama')
        w += self.cons(rng)
      r = rng.random()
      if r < .1 and self.cat['virama'] and not self.needs_vowel:
        return w + self.some(rng, 'virama') + self.maybe(
            rng, 'dead_consonant', .2)
      if (self.needs_vowel or r < .75) and self.cat['vowel_sign']:
        w += self.some(rng, 'vowel_sign')
    w += self.maybe(rng, 'vowel_length_sign', .15)
    w += self.maybe(rng, 'coda', .25)
    w += self.maybe(rng, 'dead_consonant', .15)
    return w

  def wellformed(self, rng, n=4, joiners=False):
    return ''.join(self.akshara(rng, joiners)
                   for _ in range(rng.randint(1, n)))

  def noise(self, rng, n=7):
    """Any sequence of the script's units, ill-formed ones too."""
    w = []
    for _ in range(rng.randint(1, n)):
      w.append(rng.choice(self.cat[rng.choice(
          [c for c in CATS if self.cat[c]])]))
    return ''.join(w)

  def text(self, rng):
    return self.wellformed(rng) if rng.random() < .6 else self.noise(rng)


def nfc(s):
  return unicodedata.normalize('NFC', s)


def nfd(s):
  return unicodedata.normalize('NFD', s)


def adjacent_nfc(s):
  """Canonical (de)composition, without canonical reordering.

  Decomposes, and composes left to right only marks that directly follow their
  starter.
  """
  out = []
  for c in ''.join(_full_decomp(c) for c in s):
    if out:
      x = unicodedata.normalize('NFC', out[-1] + c)
      if len(x) == 1 and _full_decomp(x) == _full_decomp(out[-1]) + c:
        out[-1] = x
        continue
    out.append(c)
  return ''.join(out)


def _full_decomp(c):
  return unicodedata.normalize('NFD', c)


def disorder(s):
  """Adjacent pairs of marks which are not in canonical order in `s`."""
  d = ''.join(_full_decomp(c) for c in s)
  return sorted({(a, b) for a, b in zip(d, d[1:])
                 if unicodedata.combining(a) > unicodedata.combining(b) > 0})


def name(s):
  return '+'.join('%04X' % ord(c) for c in s)


PREFIX = {
    'Beng': 'BENGALI', 'Bugi': 'BUGINESE', 'Deva': 'DEVANAGARI',
    'Gujr': 'GUJARATI', 'Guru': 'GURMUKHI', 'Knda': 'KANNADA',
    'Lepc': 'LEPCHA', 'Limb': 'LIMBU', 'Mlym': 'MALAYALAM',
    'Mtei': 'MEETEI MAYEK', 'Newa': 'NEWA', 'Orya': 'ORIYA',
    'Sinh': 'SINHALA', 'Sylo': 'SYLOTI NAGRI', 'Takr': 'TAKRI',
    'Taml': 'TAMIL', 'Telu': 'TELUGU', 'Tglg': 'TAGALOG', 'Thaa': 'THAANA',
    'Tirh': 'TIRHUTA'}


def letter(script, unit):
  """The name of a letter, without that of the script."""
  out = []
  for c in unit:
    n = unicodedata.name(c, 'U+%04X' % ord(c))
    if n.startswith(PREFIX[script] + ' '):
      n = n[len(PREFIX[script]) + 1:]
    out.append(n)
  return '+'.join(out)


__all__ = ['BRAHMIC', 'CATS', 'Script', 'table', 'rules']
