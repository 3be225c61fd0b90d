#!/usr/bin/env python3
"""Warms what the checks use: compiles the harness and parses the specifications. Nothing later depends on its output."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
c = lib.Check('setup')
try:
    c.build()
    print('harness builds')
finally:
    c.cleanup()
