#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]: decides one property statically."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]

import harness   # noqa: E402
from registry import CHECKS   # noqa: E402

if __name__ == "__main__":
    pid = sys.argv.pop(1)
    modname, fn, level, assumptions = CHECKS[pid]
    sys.exit(harness.main(getattr(importlib.import_module(modname), fn), pid, level, assumptions))
