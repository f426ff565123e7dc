#!/usr/bin/env python3
"""Nothing to build (the encoding is regenerated from /repo on every run): checks that the solver is there."""
import os
import subprocess
import sys
VT = "/opt/veriftools/pyvenv/bin/python3"
subprocess.check_call([VT if os.path.exists(VT) else sys.executable, "-c", "import z3; print('z3', z3.get_version_string())"])
