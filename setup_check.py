#!/usr/bin/env python3
"""Setup: build the extensions and check that the tools work."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib
print('extensions', vlib.ensure_build())
r = vlib.run_tlc('RegionMC', 'RegionMC.cfg', timeout=300)
print('TLC', r.states, 'states')
sys.exit(1 if r.error else 0)
