"""Fills in the lists of DESIGN.md from known_findings.json and seeded/."""

import glob
import json
import os
import re
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
  fixed, rows = [], []
  with open(os.path.join(HERE, 'known_findings.json')) as f:
    for e in json.load(f)['findings']:
      if e['status'] == 'fixed':
        what = re.sub(r'^fixed: property=\w+ \w+ ', '', e['what'])
        fixed.append((e['property'], e['commit'], what))
  for m in sorted(glob.glob(os.path.join(HERE, 'seeded/*/meta.json'))):
    with open(m) as f:
      d = json.load(f)
    rows.append((d['property'], os.path.basename(os.path.dirname(m)),
                 d['what_it_breaks']))
  fill = lambda rows: '\n'.join(
      textwrap.fill(f'* {p} {i}: {w}', 78, subsequent_indent='  ',
                    break_long_words=False, break_on_hyphens=False)
      for p, i, w in sorted(rows))
  path = os.path.join(HERE, 'DESIGN.md')
  with open(path) as f:
    text = f.read()
  for name, items in (('FIXED', fixed), ('SEEDED', rows)):
    mark = f'<!-- {name} -->'
    head, _, rest = text.partition(mark)
    _, _, tail = rest.partition(mark)
    text = f'{head}{mark}\n{fill(items)}\n{mark}{tail}'
  with open(path, 'w') as f:
    f.write(text)


if __name__ == '__main__':
  main()
