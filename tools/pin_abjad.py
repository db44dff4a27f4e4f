"""Makes data/abjad.json: results for spellings listed in abjad tables.

Run inside a runfiles tree with the grammars and tables."""
import json
import os
import sys
sys.path[:0] = [os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), x) for x in ('lib', '.')]
import abjad as A
import fstio as F

c = A.CONTEXT
d = {'visual': {}, 'reading': {}, 'roman': {}, 'joint': {}}


def around(a):
  return (a, a + c, c + a, c + a + c)


pres = set(a for a, _ in A.rules('presentation_forms'))
for l in A.LANGS:
  f = F.fst(F.AB + 'visual_norm', l)
  m = A.Visual(l)
  d['visual'][l] = {w: F.best(f, w) for a in m.lhs for w in around(a)}
  f = F.fst(F.AB + 'reading_norm', l)
  m = A.Reading(l)
  d['reading'][l] = {w: F.best(f, w) for a in m.lhs for w in around(a)}
f = F.fst(F.AB + 'visual_norm', 'UR')
d['joint'] = {a: F.best(f, c + a + c)[1:-1] for a in sorted(pres)}
f = F.fst(F.AB + 'reversible_roman', 'FROM_ARAB')
d['roman'] = {a: F.best(f, a) for a, _ in A.rules('reversible_roman')}
d['pairs'] = [a for a, b in A.rules('nfc') if len(a) == 2
              and sorted(a) == sorted(b)]
json.dump(d, sys.stdout, indent=0, sort_keys=True)
print()
