"""Checks that what the checks need is here. Nothing is to be built."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('data', '.'):
  for f in os.listdir(os.path.join(here, d)):
    if f.endswith('.json'):
      with open(os.path.join(here, d, f)) as h:
        json.load(h)
need = ['/opt/venv/bin/python', '/opt/vp/nis/driver.py']
missing = [p for p in need if not os.path.exists(p)]
if missing:
  sys.exit('missing: %s' % missing)
os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
