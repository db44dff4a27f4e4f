"""Records a repaired defect: addfix.py PROPERTY ID COMMIT WHAT."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
k = json.load(open(p))
prop, i, c, what = sys.argv[1:]
k['findings'].append(dict(property=prop, id=i, status='fixed', commit=c, mechanisms=[],
                          what='fixed: property=%s %s %s' % (prop, c, what)))
json.dump(k, open(p, 'w'), indent=1, ensure_ascii=False)
open(p, 'a').write('\n')
