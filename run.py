#!/usr/bin/env python3
"""python3 run.py <property> [quick|thorough] [--case JSON]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf.core import main
sys.exit(main(sys.argv[1:]))
