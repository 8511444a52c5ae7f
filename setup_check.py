#!/usr/bin/env python3
"""setup_cmd: nothing to build (pure Python); checks that the tools the checks need are present."""
import subprocess
import sys
code = ("import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); "
        "import z3, numpy, netCDF4, cf_units, ply; print('z3', z3.get_version_string())")
sys.exit(subprocess.call(["/opt/venv/bin/python", "-c", code]))
