"""Makes data/sigma.json: the characters each script's FSTs take (by hand)."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'lib'))
import fstio as F

d = {s: ''.join(sorted(F.alphabet(F.fst(F.BR + 'sigma_utf8', s))))
     for s in F.BRAHMIC}
d['Arab'] = ''.join(sorted(F.alphabet(F.fst(F.AB + 'nfc_utf8', 'ARAB'))))
json.dump(d, sys.stdout, indent=0, sort_keys=True)
print()
