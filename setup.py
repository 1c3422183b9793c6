#!/usr/bin/env python3
"""Builds the explorers ahead of the checks (each check also builds what it needs)."""
import sys
import build

try:
    print(build.mc())
    print(build.cli())
    print(build.node())
except build.Error as e:
    print("ERROR: " + str(e))
    sys.exit(2)
