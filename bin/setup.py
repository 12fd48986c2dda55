#!/usr/bin/env python3
"""Builds the driver and compiles the TLC module override, to see that the tools are there."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import run
os.makedirs(run.WORK, exist_ok=True)
print(run.build())
print(run.build(array=True))
print(run.classes())
