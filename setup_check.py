#!/usr/bin/env python3
"""nothing is built: says which interpreters and solvers the checks use"""
import os, subprocess, sys
print(sys.version)
v = '/opt/venv/bin/python'
if os.path.exists(v):
    subprocess.run([v, '-c', 'import sys; sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages"); '
                    'import numpy, pandas, xarray, numexpr, z3; print(numpy.__version__, pandas.__version__, '
                    'xarray.__version__, numexpr.__version__, z3.get_version_string())'])
