#!/usr/bin/env python3
import argparse
import os
import sys
PY = '/opt/veriftools/pyvenv/bin/python3'
if sys.prefix != '/opt/veriftools/pyvenv' and os.path.exists(PY):
    os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
ap = argparse.ArgumentParser()
ap.add_argument('--property', required=True)
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--only', help='regular expression on configurations (development)')
ap.add_argument('-v', action='store_true')
a = ap.parse_args()
from rtlvc import driver
sys.exit(driver.main(a.property, a.tier, a.only, a.v))
