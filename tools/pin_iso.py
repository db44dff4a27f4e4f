"""Makes data/iso_names.json: the ISO 15919 value of each letter, by name.

Run once, by hand, in a built tree. Values shared by most scripts are under
'common', others under the script. Reviewed by hand afterwards: the check reads
the committed file, never the current tables.
"""
import collections
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'lib'))
import brahmic as B

by = collections.defaultdict(lambda: collections.defaultdict(list))
for s in B.BRAHMIC:
  for c in B.CATS:
    for a, v in B.table(s, c):
      by[c + '|' + B.letter(s, a)][v].append(s)
common, own = {}, collections.defaultdict(dict)
for k in sorted(by):
  vals = sorted(by[k].items(), key=lambda x: (-len(x[1]), x[0]))
  common[k] = vals[0][0]
  for v, scripts in vals[1:]:
    for s in scripts:
      own[s][k] = v
json.dump({'common': common, 'own': own}, sys.stdout, indent=0,
          ensure_ascii=False, sort_keys=True)
