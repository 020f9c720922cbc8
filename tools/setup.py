#!/usr/bin/env python3
"""Nothing is built: checks import /repo directly. This only says early if an interpreter or library is missing."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
code = "import sys; sys.path.insert(0, %r); from lib import bootstrap; bootstrap.install(); import hypothesis, numpy, scipy, pandas; print('ready', hypothesis.__version__)" % (V + "/pbt")
sys.exit(subprocess.call(["/opt/venv/bin/python", "-B", "-c", code]))
