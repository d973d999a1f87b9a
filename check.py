#!/usr/bin/env python3
"""check.py <property> [quick|thorough]     decide one property
   check.py --replay <file>               show a recorded violation again"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from simlib import frame
sys.exit(frame.main(sys.argv[1:]))
