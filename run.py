#!/usr/bin/env python3
"""python3 run.py <property> [quick|thorough]  -  run one check.   python3 run.py setup  -  prebuild everything."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import checks
checks.main(sys.argv[1:])
