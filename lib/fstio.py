"""Applies the real FSTs (as built) to strings. Used inside a runfiles tree."""

import pynini

BR = 'nisaba/scripts/brahmic/'
AB = 'nisaba/scripts/abjad_alphabet/'
NT = 'nisaba/scripts/natural_translit/'

BRAHMIC = ('Beng Bugi Deva Gujr Guru Knda Lepc Limb Mlym Mtei Newa Orya Sinh '
           'Sylo Takr Taml Telu Tglg Thaa Tirh').split()

_fars = {}
_fsts = {}


def far(path):
  """All FSTs of an archive, by name."""
  if path not in _fars:
    with pynini.Far(path + '.far') as f:
      _fars[path] = {k: v for k, v in f}
  return _fars[path]


def fst(path, key):
  """One FST of an archive. (Archives can be large: 1.5 GB in memory.)"""
  if path in _fars:
    return _fars[path][key.upper()]
  if (path, key) not in _fsts:
    with pynini.Far(path + '.far') as f:
      _fsts[path, key] = f[key.upper()]
  return _fsts[path, key]


def lattice(f, text, tt='byte'):
  with pynini.default_token_type(tt):
    return pynini.compose(pynini.accep(pynini.escape(text)), f)


def outputs(f, text, tt='byte', n=4):
  """The n best distinct outputs, with their costs, best first."""
  with pynini.default_token_type(tt):
    l = pynini.compose(pynini.accep(pynini.escape(text)), f)
    if l.start() == -1:
      return []
    l = pynini.project(l, 'output').rmepsilon()
    if n == 1:
      l = pynini.shortestpath(l)
    else:
      l = pynini.shortestpath(l, nshortest=n, unique=True)
    try:
      r = [(o, float(w)) for _, o, w in l.paths().items()]
    except Exception as e:  # Bytes which are not text.
      return [('<undecodable: %s>' % e, float('nan'))]
  r.sort(key=lambda x: (x[1], x[0]))
  return r


def best(f, text, tt='byte'):
  """What the Python API would give: a shortest path's output, or None."""
  with pynini.default_token_type(tt):
    l = pynini.compose(pynini.accep(pynini.escape(text)), f)
    if l.start() == -1:
      return None
    try:
      return pynini.shortestpath(pynini.project(l, 'output')).string()
    except pynini.FstOpError:
      return None
    except UnicodeDecodeError as e:
      return '<undecodable: %s>' % e


def accepts(f, text, tt='byte'):
  return lattice(f, text, tt).start() != -1


def alphabet(f):
  """Characters on the input side of a `utf8` FST."""
  r = set()
  for st in f.states():
    for a in f.arcs(st):
      if 0 < a.ilabel < 0x110000:
        r.add(chr(a.ilabel))
  return r
