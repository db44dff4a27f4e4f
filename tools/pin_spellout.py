"""Records data/spellout.json: how each letter is spelled, by language."""

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import fstio as F

AZ = 'abcdefghijklmnopqrstuvwxyz'
r = {}
for k, f in sorted(F.far(F.NT + 'deromanization/en_spellout').items()):
  r[k] = {}
  for c in AZ:
    (o,) = F.outputs(f, c)
    r[k][c] = o[0]
with open(os.path.join(HERE, 'data', 'spellout.json'), 'w') as f:
  json.dump(r, f, ensure_ascii=False, indent=0, sort_keys=True)
  f.write('\n')
