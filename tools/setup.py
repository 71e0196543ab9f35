#!/usr/bin/env python3
"""Warms the build cache: builds the harness once."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vf
print(vf.build(), "built")
