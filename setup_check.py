#!/usr/bin/env python3
"""Nothing is compiled; verifies that the two interpreters and their libraries are there."""
import subprocess, sys
for exe, code in (
    ("/opt/veriftools/pyvenv/bin/python", "import hypothesis"),
    ("/opt/pypyvenv/bin/python", "import numpy, pandas, openpyxl, plotly, matplotlib, tqdm"),
):
    r = subprocess.run([exe, "-B", "-c", code])
    if r.returncode:
        sys.exit("missing: %s in %s" % (code, exe))
print("ok")
