#!/usr/bin/env python3
"""Usage: check.py <PROPERTY> [--thorough]   Decides one property from /repo's current source (static analysis only)."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.report import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
