#!/usr/bin/env python3
"""check.py <property> [-v]: decides one property of the sources in /repo"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bsa import runner  # noqa: E402

if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    sys.exit(runner.main(args[0], verbose="-v" in sys.argv))
