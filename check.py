#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]

Builds the current tree of /repo, runs the monitored workloads of one property, writes
evidence/<property>.json.  Exit 0: held on everything observed.  Exit 1: a VIOLATION line.
Exit 2: no answer (build or harness failure, nothing observed)."""
import os
import sys
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import runner
if __name__ == "__main__":
    if sys.argv[1:] == ["--warm"]:      # optional: fills the object cache
        from vlib import build
        for flavour in ("rel", "asan"):
            try:
                build.module("core", flavour, vh=True)
                build.module("mace", flavour)
            except build.BuildError as e:
                print(e)
        sys.exit(0)
    sys.exit(runner.main(sys.argv[1:]))
