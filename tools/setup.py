#!/usr/bin/env python3
"""setup_cmd: builds the harness and the phase-diagram program once, so that later builds are incremental."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib
vlib.build("harness")
vlib.build("physical_tc")
vlib.build("survey")
print("setup done")
