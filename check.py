#!/usr/bin/env python3
"""check.py <property-id> [--tier quick|thorough] [--only REGEX]: decide one property on /repo's working tree."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import argparse
ap = argparse.ArgumentParser()
ap.add_argument('pid')
ap.add_argument('--tier')
ap.add_argument('--only')
a = ap.parse_args()
if a.tier:
    os.environ['VERIF_TIER'] = a.tier
from vk import Check
from props import PROPS
p = PROPS[a.pid]
sys.exit(Check(a.pid, bounds=p['bounds'], assumptions=p.get('assumptions', [])).run(p['jobs'], a.only))
