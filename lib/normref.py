"""Reference semantics of the normalizers of Brahmic scripts."""

import re
import unicodedata

import brahmic as B
import refmodel as R


class Visual:
  """NFC, repeated marks, rewrite rules, joiners, rules of a language."""

  def __init__(self, script, lang=''):
    self.marks = {c for c in B.sigma()[script]
                  if unicodedata.category(c) == 'Mn'} | set(B.ZW)
    self.rules = R.layers(B.rules(script, 'visual_rewrite'))
    self.preserve = [a for a, _ in B.table(script, 'preserve')]
    self.cons = [a for a, _ in B.table(script, 'consonant')]
    self.before = B.rules(script, lang + '/before_consonant') if lang else []
    self.after = B.rules(script, lang + '/after_consonant') if lang else []

  def _ends(self, done):
    return any(done.endswith(c) for c in self.cons)

  def _starts(self, rest):
    return any(rest.startswith(c) for c in self.cons)

  def dedup(self, w):
    out = []
    for c in w:
      if not (out and out[-1] == c and c in self.marks):
        out.append(c)
    return ''.join(out)

  def __call__(self, w):
    w = self.dedup(B.adjacent_nfc(w))
    w = R.unordered_pre(self.rules, w)
    # Sequences with joiners are kept between consonants.
    hide = {p: chr(0xf0000 + i) for i, p in enumerate(self.preserve)}
    if hide:
      w = R.scan(list(hide.items()), w, left=self._ends, right=self._starts)
    w = ''.join(c for c in w if c not in B.ZW)
    for p, x in hide.items():
      w = w.replace(x, p)
    if self.before:
      w = R.scan(self.before, w, right=self._starts)
    if self.after:
      w = R.scan(self.after, w, left=self._ends)
    return w


class Reading:
  """Rules of a script, then those of a language."""

  def __init__(self, script, lang=''):
    self.script = R.layers(B.rules(script, 'reading_norm'))
    self.lang = R.layers(
        B.rules(script, lang + '/reading_norm') if lang else [])

  def __call__(self, w):
    return R.unordered_pre(self.lang, R.unordered_pre(self.script, w))
