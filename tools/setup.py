#!/usr/bin/env python3
"""Checks that the tools are there and warms the Go build cache by building every driver once."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf

ctx = vf.Ctx("setup", "quick", 1)
try:
    h = os.path.join(vf.VERIF, "harness")
    for m in sorted(os.listdir(h)):
        for d in sorted(os.listdir(os.path.join(h, m))):
            if os.path.exists(os.path.join(h, m, d, "main.go")):
                ctx.build(m, d, race=m.endswith("-admin"))
                if d == "rand":
                    ctx.build(m, d, race=True)
    print("setup ok")
finally:
    ctx.cleanup()
