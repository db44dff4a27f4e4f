"""Writes data/repertoire.json from a built tree (cwd): run once, by hand."""
import json, os, sys
sys.path.insert(0, '/verif/lib')
import brahmic as B
r = {}
for s in B.BRAHMIC:
  r[s] = {c: sorted({a for a, _ in B.table(s, c)})
          for c in B.CATS + ['preserve', 'accept']}
  r[s] = {c: v for c, v in r[s].items() if v}
with open('/verif/data/repertoire.json', 'w') as f:
  json.dump(r, f, indent=1, ensure_ascii=True, sort_keys=True)
  f.write('\n')
