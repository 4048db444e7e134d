#!/usr/bin/env python3-vt
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
# /repo is only ever imported through pvc.loader
sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != "/repo"]
from pvc.report import main
main()
