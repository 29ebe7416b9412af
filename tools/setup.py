#!/usr/bin/env python3
"""Builds the conformance driver and checks that the tools are there."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core
print("driver built in %.0f s" % core.build())
