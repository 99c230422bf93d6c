#!/usr/bin/env python3
"""nothing to build: verify the tools the checks need are there"""
import subprocess, sys
ok = subprocess.run(["/opt/veriftools/pyvenv/bin/python", "-c", "import z3, cvc5; print(z3.get_version_string())"]).returncode == 0
ok &= subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, flopy, dany; print(dany.__file__)"]).returncode == 0
sys.exit(0 if ok else 1)
