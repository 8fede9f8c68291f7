#!/usr/bin/env python3
"""Builds the harnesses once, so that the checks only rebuild what changed."""
import os, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from vlib import core
ctx = core.Ctx("setup", "quick", 1)
bad = 0
for c in sorted(os.listdir(os.path.join(V, "harness"))):
    if os.path.exists(os.path.join(V, "harness", c, "Cargo.toml")) and c != "stubs":
        try:
            core.build(ctx, c)
        except core.ToolError as e:
            print(e)
            bad = 1
sys.exit(bad)
