#!/usr/bin/env python3
"""Pre-builds the harnesses into build/ (only a cache: every check rebuilds what is missing or out of date)."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import run
for pid, cfg in sorted(run.PROPS.items()):
    exe, skipped = run.build(pid, cfg)
    print(pid, "built" if exe else "NOT BUILT", skipped or "")
