#!/usr/bin/env python3
"""Nothing to build: makes sure the analyser's modules load and the evidence folder exists."""
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import sa.engine  # noqa: E402,F401
import sa.interp  # noqa: E402,F401
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
print('ready')
