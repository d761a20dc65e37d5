#!/opt/venv/bin/python
"""Runs the check of one property: run_check.py C01 [--tier quick|thorough]."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vlib import harness  # pylint: disable=g-import-not-at-top

if __name__ == '__main__':
  sys.exit(harness.main())
