#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--replay FILE]"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.runner import main
if __name__ == '__main__':
    sys.exit(main())
