#!/bin/bash
# builds the IR reader used by every check
cd "$(dirname "$0")" && python3 - <<'P'
import sys
sys.path.insert(0, "lib")
import ir
print(ir.ensure_irdump())
P
