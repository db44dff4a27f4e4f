"""Abjad / alphabet workloads and reference semantics."""

import json
import os

from fstio import AB
import brahmic as B
import refmodel as R

LANGS = 'ar azb bal ckb fa ks ms pa prs ps sd ug ur uz'.split()
DATA = AB + 'data/Arab/'
CONTEXT = '\u0628'  # Beh, which no rule is about.


def sigma():
  return B.sigma()['Arab']


def recorded():
  here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  with open(os.path.join(here, 'data', 'abjad.json')) as f:
    return json.load(f)


def rules(name):
  return R.rules(DATA + name + '.tsv')


class Visual:

  def __init__(self, lang):
    self.common = [R.layers(rules(n)) for n in (
        'presentation_forms', 'nfc', 'visual_norm')]
    self.any = R.layers(rules(lang + '/visual_norm'))
    self.nonfinal = rules(lang + '/visual_norm_nonfinal')
    self.final = rules(lang + '/visual_norm_final_isolated')
    self.isolated = rules(lang + '/visual_norm_isolated')
    self.lhs = [a for x in self.common[1:] + [self.any] for y in x for a, _ in y]
    self.lhs += [a for x in (self.nonfinal, self.final, self.isolated)
                 for a, _ in x]
    self.pres = [a for y in self.common[0] for a, _ in y]

  def __call__(self, w):
    for x in self.common + [self.any]:
      w = R.unordered_pre(x, w)
    if self.nonfinal:
      w = R.scan(self.nonfinal, w, right=lambda r: r != '')
    if self.final:
      w = R.scan(self.final, w, left=lambda o: o != '',
                 right=lambda r: r == '')
    one = self.final + self.isolated
    if one:
      w = R.scan(one, w, left=lambda o: o == '', right=lambda r: r == '')
    return w


class Reading:

  def __init__(self, lang):
    self.layers = R.layers(rules(lang + '/reading_norm'))
    self.lhs = [a for y in self.layers for a, _ in y]

  def __call__(self, w):
    return R.unordered_pre(self.layers, w)
