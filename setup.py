#!/usr/bin/env python3
"""Builds the harness once and checks that the tools are there."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vlib
try:
    vlib.build()
except vlib.ToolError as e:
    sys.exit(str(e))
assert os.path.exists(vlib.JARS.split(":")[0])
