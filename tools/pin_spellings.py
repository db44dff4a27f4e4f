"""Makes data/spellings.json: results for spellings listed in tables."""
import json
import os
import sys
sys.path[:0] = [os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), x) for x in ('lib', '.')]
import brahmic as B
import fstio as F
from checks import p07

d = {'visual_norm': {}, 'reading_norm': {}, 'fixed': {}}
for s, l in [(s, '') for s in B.BRAHMIC] + [('Beng', 'as'), ('Beng', 'bn')]:
  f = F.fst(F.BR + 'visual_norm', l or s)
  c = B.Script(s, {}).cat['consonant'][0]
  words = [a for a, _ in B.rules(s, 'visual_rewrite')]
  words += [c + p + c for p, _ in B.rules(s, 'preserve')]
  if l:
    words += [a + c for a, _ in B.rules(s, l + '/before_consonant')]
    words += [c + a for a, _ in B.rules(s, l + '/after_consonant')]
  d['visual_norm'][l or s] = {w: F.best(f, w) for w in words}
for k, (s, l) in p07.READING.items():
  f = F.fst(F.BR + 'reading_norm', k)
  words = [a for a, _ in B.rules(s, 'reading_norm')]
  if l:
    words += [a for a, _ in B.rules(s, l + '/reading_norm')]
  d['reading_norm'][k] = {w: F.best(f, w) for w in words}
f = F.fst(F.BR + 'fixed', 'MLYM')
words = [a for a, _ in B.rules('Mlym', 'fixed') if a.isascii() and a.isalpha()]
d['fixed']['MLYM'] = {w: F.best(f, w) for x in words for w in (x, 'ka' + x, x + 'a')
                      if F.best(f, w)}
json.dump(d, sys.stdout, indent=0, sort_keys=True)
print()
