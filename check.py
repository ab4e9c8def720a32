#!/opt/venv/bin/python
"""Entry point: check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.core import main  # noqa: E402

main()
