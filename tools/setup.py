#!/usr/bin/env python3
"""setup_cmd: builds what the checks need (they rebuild what has changed)."""
import sys
import build
try:
    print(build.build({'observe', 'groot'}))
except build.BuildError as e:
    print(e)
    sys.exit(1)
