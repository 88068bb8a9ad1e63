#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: analyse /repo's working tree for one property."""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "checks")]
sys.setrecursionlimit(20000)
import registry
import run
sys.exit(run.main(registry.CHECKS))
