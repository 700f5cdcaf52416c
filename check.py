#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on the current source of the repository."""
import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import engine  # noqa: E402

if __name__ == '__main__':
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    a = p.parse_args()
    sys.exit(engine.main(a.property, a.tier, importlib.import_module('props.' + a.property.lower())))
