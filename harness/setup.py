#!/usr/bin/env python3
"""Builds the server once and checks that the specification parses."""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import check  # noqa: E402
import tlc  # noqa: E402

d = tempfile.mkdtemp()
try:
    check.build(d)
    for m in ("Trace", "ServerLoop", "MCDoc", "MCExt", "TraceExt"):
        p = subprocess.run(["java", "-cp", tlc.JARS, "tla2sany.SANY", m + ".tla"], cwd=os.path.join(os.path.dirname(HERE), "spec"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            print(p.stdout)
            sys.exit(1)
finally:
    shutil.rmtree(d, ignore_errors=True)
print("ready")
