#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vlib            # noqa: E402
import checks          # noqa: E402

if __name__ == "__main__":
    sys.exit(vlib.main(checks.REGISTRY))
