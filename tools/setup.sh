#!/bin/bash
# Builds the code under test once in all flavours, so that the checks only rebuild what changed.
cd "$(dirname "$0")/.." && exec /usr/bin/python3 -B -c '
import sys; sys.path.insert(0, "lib")
import build
for f in ("rel", "asan", "tsan"): print(build.build_flame(f))
'
