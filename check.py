#!/opt/venv/bin/python
"""check.py <property> quick|thorough   |   check.py --replay <file>"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from sim import runner  # noqa: E402

sys.exit(runner.main(sys.argv[1:]))
