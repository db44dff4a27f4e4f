#!/usr/bin/env python3
"""run_check.py ID [--tier quick|thorough] [--seed N]"""
import argparse
import os
import sys

PY = '/opt/venv/bin/python'
if os.path.realpath(sys.executable) != os.path.realpath(PY) or (
    sys.prefix != '/opt/venv'):
  os.execv(PY, [PY, '-P', os.path.abspath(__file__)] + sys.argv[1:])

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                'lib'))
import harness  # pylint: disable=g-import-not-at-top

p = argparse.ArgumentParser()
p.add_argument('property')
p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
               choices=['quick', 'thorough'])
p.add_argument('--seed', type=int,
               default=int(os.environ.get('VERIF_SEED', '1')))
a = p.parse_args()
sys.exit(harness.main(a.property.upper(), a.tier, a.seed))
