#!/opt/venv/bin/python
"""run_check.py <property> [quick|thorough] [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from nmtv.driver import main  # noqa

sys.exit(main())
