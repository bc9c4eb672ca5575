#!/usr/bin/env python3
"""Warms the build cache; every check also works without it."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vlib"))
import build
import prove
print(build.build_server())
print(prove.dump())
