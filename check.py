#!/usr/bin/env python3
import os, sys
os.execv(sys.executable, [sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib", "driver.py")] + sys.argv[1:])
